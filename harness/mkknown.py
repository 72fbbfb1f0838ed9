#!/usr/bin/env python3
"""Writes known_findings.json."""
import json, os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = """
P03 29064ed a process killed by a signal was never noticed to have ended (waiting for ever)
P03 4129235 a function that raised was not noticed by its pipeline; waiting for it never ended
P06 0b27748 reading captured output that is not valid UTF-8 raised, and the end of the pipeline was lost
P02 32057a4 writing a large value to a pipe blocked the whole event loop, and with it the reader of the pipe
P04 009244a redirects that share a source or open straight onto their target descriptor were wired wrong or closed
P04 e431536 a command whose redirects could not be set up was run anyway, with the shell's own descriptors
P04 a13e22f the descriptor of the log file was inherited by every command
P02 e5440ae the input of a function that had finished stayed open, so writers never got a broken pipe
P13 637c578 async iterators and iterables were not accepted as stages
P13 a430e67 functions could not read or write regular files (PermissionError from epoll)
P09 d777505 an environment with no variables at all got those of the calling process
P09 4f23a91 a failed change of directory changed the directory of the environment
P10 262893a the path of the current directory was taken for a pattern
P14 6d9626e bashsource lost or mangled values with quotes, newlines, attributes and the like, and took functions for variables
P16 204511b only one of several tasks waiting for a pipeline was told of its end, and cancelling one affected others
P06 4862e0e the processes of one side of a group were not part of the result
P15 28d0592 a subshell ran code of its caller (buffers printed twice, handlers run, exit status lost)
P04 b1de386 commands were started with SIGPIPE ignored and SIGCHLD blocked
P07 c34216c signals were sent to processes that had been collected already (whoever has the pid by then)
P03 8b03c3f without signalfd, signals other than SIGCHLD were mixed up
P05 dd5c45a pipelines without any processes (cd, bg) were listed as running for ever
P07 c0379a2 fg never returned when its pipeline failed or was suspended
P07 3db1149 Ctrl-C did not report which pipeline was interrupted
P11 d30560b an assignment to an exported variable was hidden by an older local one
P09 215e6ed default redirections of an environment could not be given
P15 e9aeda1 remote pickled the whole environment, and so failed whenever that contained something that can not be pickled
P01 800d0ed a group one side of which is redirected elsewhere was not connected to what it was piped to
P07 5c8ce88 suspending a pipeline from code left those waiting for it waiting
P07 a835dff Ctrl-Z during fg reported a suspension, but the processes went on running
P07 715dff1 Ctrl-Z was lost after anything else had been waited for in the background meanwhile
P02 a6326e7 a function writing to a pipe could block the event loop, and with it the reader of that pipe
P04 28965ae two redirects with the same, not borrowed source: the caller closed it twice, and run() failed with the command already started
P10 f243fd6 bytes as arguments were taken for iterators, and replaced by the path of a pipe
P04 34ff061 files redirected to or from were relative to the directory of the calling process, not of the environment
P15 fbbc9b3 files redirected to or from by a subshell were relative to the directory of the calling process, not of the environment
P09 4f9ba0d clear_dir_cache cleared nothing, so completion went on with the commands of an old PATH
P09 a47d0c4 deriving an interactive environment with a directory that does not exist failed, but left the calling process in another directory
P06 ae7c40d the processes in the arguments of a command shared its temporary files, so that what one wrote was reported as captured from all of them
P19 4758b60 decorated shell functions lost the defaults of their keyword-only arguments
P11 332d048 variables were not expanded in arguments of commands in shell modules and in scopes made for an environment
P13 d789d3c a function that raised when it was called made run() raise, instead of failing its stage
P13 807684f a function that was cancelled or raised CancelledError left its pipeline waiting forever
P14 11b2aba the command line of bashsource was expanded twice, so scripts with % in their names failed
P14 fb2e96d variables exported without a value were imported as empty ones
P14 f9d8518 scripts whose names start with a dash were not found; DEBUG traps, IFS or a function named declare corrupted the import
P17 64a144b a child that had ended made its siblings unreachable; processes of other users or without a command line had wrong or empty names; GROUP and SESS could be another process
P17 19519eb processes called children, or whose names start with something other than a letter, could not be reached
P08 a6f3b3c pipelines with bytes arguments could not be displayed, and those with empty arguments or ones ending in a newline were displayed as something else
P17 40060d2 names of processes changed when they ended, or when the directory, jobs or iterated lists changed
P18 278f3f8 asking a command for its documentation or signature ran the pipelines in its arguments; completing or describing a subshell ran the pipeline in it
P19 bc9d479 a script that ends in the middle of a statement was silently ignored as a whole
P18 98d7ea7 completing commands failed if a directory of PATH does not exist
P07 5a87081 without signalfd, Ctrl-Z in a terminal stopped the processes of all pipelines
P07 e945657 bg and fg resumed another pipeline than the one stopped last after fg and Ctrl-Z
P18 7750074 completing a line at the console ran the pipelines it mentions
P06 cd41f80 waiting could return before captured output was available
P21 f2e1d44 what was to be said about a command that cannot be run was lost in a buffer
P18 1f91ce8 displaying the pipeline of a run of a builtin ran the builtin again
P08 2b302f5 builtins written as the documentation tells could not be piped or iterated over
P08 1bd1aab piping to or from builtins that run nothing crashed and left what was started before them behind
P20 f7a0600 the shell did not start where its startup file could not be written (other than for lack of permission)
P13 05b7943 functions could not be given named tuples, default dictionaries or decimals (the run raised TypeError)
P01 b007cfc an error was logged when input arrived for a reader that had given up waiting
P07 b4381c3 fg and bg with nothing to continue raised an AttributeError about None
P09 f64343b cd completed to the directories of the process instead of those of its environment
P21 2b49f4c completing names of an environment without PATH failed
"""
known = [
    dict(property="P01", status="known", scenario_key=k, message="file of stream",
         what="%s: every stage opens the path by itself, and they overwrite each other's output" % w)
    for k, w in (("group-to-path", '(cmd + cmd) | "file"'), ("group-fn-to-path", '(iterator + cmd) | "file"'),
                 ("fnarg-to-path", 'cmd(function) | "file"'))]
for line in FIXED.strip().split("\n"):
    p, commit, what = line.split(" ", 2)
    known.append(dict(property=p, status="fixed", entry="fixed: property=%s %s %s" % (p, commit, what)))
json.dump(known, open(os.path.join(VERIF, "known_findings.json"), "w"), indent=1)
