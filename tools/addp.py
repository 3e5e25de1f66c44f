# usage: addp.py < text : inserts the entry before the end of PROPS
import sys
s=open('/verif/tools/props.py').read()
s=s.replace("\n]\nNOT_APPLICABLE",sys.stdin.read().rstrip('\n')+"\n]\nNOT_APPLICABLE",1)
open('/verif/tools/props.py','w').write(s)
