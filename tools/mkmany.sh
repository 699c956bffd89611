# usage: mkmany.sh OUT  "file args" "file args" ...
out=$1; shift; : > /tmp/_body; : > /tmp/_imp
for a in "$@"; do python3 /verif/tools/mkspec.py mushroom_rl/$a > /tmp/_one; python3 - <<'P'
s=open('/tmp/_one').read()
i=s.find('\n\n\ndef ')
open('/tmp/_imp','a').write(s[:i]+'\n'); open('/tmp/_body','a').write(s[i:].rstrip()+'\n')
P
done
(echo '"""'"$DOC"'"""'; sort -u /tmp/_imp | grep .; cat /tmp/_body) > $out
