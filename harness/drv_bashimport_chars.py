"""What the symbols of BashImport.tla stand for."""
CHARS = dict(x="k", X="K", q="'", d='"', b="\\", D="$", t="`", n="\n", c="\x01", e="\x1b", r="\r", T="\t", i="\udcff", u="→", U="日本", s=" ", S="  ",
             p="(", P=")", B="{", E="}", o="0", w="%s", h="#", g="*", a="&&", m="!", eq="=", sc=";", hd="<<EOF", tl="~", rx="\\1", cm=",", br="[a-z]", nl="\\n", bd="\\\"", oc="\\101",
             lk='\ndeclare -x A="nasty"\n', lf="\nf () \n{ \n    :\n}\n", ll='declare -x B=nasty', big="0123456789" * 500, dl="\x7f", fs="/")
