"""What MANIFEST.json says about each check."""
T = "TLA+ specification (%s) model-checked with TLC; its behaviours replayed step by step on the real code"
LEVELS = {
 "P01": (T % "Plumbing, Lines, Flow", "All interleavings and cuts on the specifications within small bounds; on the code, sampled behaviours with every observation compared, and free-running chains with up to megabytes of data. Trusts the kernel's pipes, coreutils and the test stages."),
 "P02": (T % "Plumbing, Flow", "Every order of steps on the specification for small programs; on the code, sampled behaviours of all pipeline shapes up to 3 stages (and typical larger ones), and free-running chains. Trusts the kernel's pipes and the test stages."),
 "P03": (T % "Jobs, Plumbing", "Every order in which stages end, are noticed and waited for on the specification for small configurations; on the code sampled behaviours, with both ways of receiving signals."),
 "P04": (T % "FdSetup", "All sets of up to 3 or 4 redirections of colliding descriptors made in every order on the specification; on the code, sampled sets of up to 5, compared by descriptor tables and by what is read and written through them. Trusts /proc and the test stage."),
 "P05": (T % "Plumbing, Jobs", "After each of the sampled behaviours, whatever its end, descriptors, children, temporary files, event sources and lists are compared with those before."),
 "P07": (T % "Jobs, Shell", "Every order of suspending, resuming, signals from elsewhere, Ctrl-Z, Ctrl-C and ends of stages on the specification for small configurations; on the code sampled behaviours, states of the processes compared after every step, also in sessions of the whole shell on a terminal with real keys."),
 "P12": (T % "Plumbing", "As P02, for commands with pipelines, iterators and functions as arguments, nested and mixed."),
 "P16": (T % "Plumbing with several pipelines, Jobs with several waiters, Flow", "As P02 and P03, for several pipelines and waiters at once."),
 "P06": (T % "Capture", "All orders for small pipelines on the specification; on the code, sampled pipelines run several times at once, written to by processes and by children that outlive them; everything reported is compared."),
 "P10": (T % "Args", "All short arguments over a small alphabet on the specification (which defines expansions and pattern matching itself); on the code, sampled lists of arguments of all kinds, in changing directories, compared with the argument vectors received."),
 "P09": (T % "Environ", "All orders of a few steps on the specification; on the code, sampled histories of creating, deriving and changing environments and of the calling process, and everything a command gets compared (directory, all variables, descriptors)."),
 "P11": (T % "Scopes", "All short sequences of assigning, exporting, deleting, importing and changing environments on the specification; on the code, sampled long ones, written as statements of many kinds, with every name's meaning, what is exported to commands and what arguments expand to compared."),
 "P19": (T % "Scopes, Calls", "As P11, for modules (also in packages) and decorated functions; and all signatures and calls of a small size on the specification of calling, sampled larger ones on the code, for functions, methods, generators, coroutines and async generators."),
 "P08": (T % "Values", "All orders of building, displaying, running and combining a few pipelines on the specification; on the code, sampled long ones with stages of all kinds, every outcome, text and count of starts compared with what the pipeline's own text says."),
 "P13": (T % "FnKinds", "All short pipelines of a few kinds of functions and iterators on the specification; on the code, sampled ones of all kinds, values, extra arguments and points of failure, their output, failures and calls compared."),
"P14": (T % "BashImport", "All short scripts over a small alphabet on the specification (which has a model of a shell's variables); on the code, sampled scripts and environments, run by the real bash, all imported variables compared."),
"P18": (T % "Values, Shell", "As P08, comparing how often each stage was started after every step, in interactive and other environments."),
"P15": (T % "Values", "As P08, with parts of the pipelines put in subshells and remote shells (a stand-in for ssh that starts the same software): outputs, outcomes and starts compared with those of running them directly, and the caller's environments, variables, buffers, descriptors and exit handlers with those before."),
"P17": (T % "Names", "All pipelines of few stages and all process trees of few processes over a small set of names on the specification; on the code, sampled pipelines of commands and functions with colliding and unusual names, before and after they end, and trees of real processes, all names and what they lead to compared."),
"P20": (T % "Shell", "All sessions of one or two statements on the specification; on the code, sampled sessions of the whole program on a terminal (keys typed, output and prompts read), with files and with a command line, startup files included: what runs, in which order and directory, what is reported and shown and left compared after every statement."),
 "P21": (T % "Find", "All short histories of creating and removing programs, changing directories and PATHs and running commands on the specification; on the code, sampled long ones with names of all kinds, which program ran, failures, their messages and completions compared."),
 "P22": (T % "Builtins", "All short histories of registering, writing and running commands of one's own of a few shapes on the specification; on the code, sampled long ones with bodies of every shape, also nested and from installed packages, in pipes, groups, arguments, subshells, several at once: outputs, exit codes and which ran, with which arguments, in which environment, compared."),
}
