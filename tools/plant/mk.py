# turns BUGS into one file each
import os
B = []
def bug(id, prop, edits, needs, breaks, demo, flags='', r=0): B.append((id, prop, edits, needs, breaks, demo, flags, r))
exec(open('bugs.py').read())
H = open('helpers.h').read()
for b in B:
    open('b/%s.py' % b[0], 'w').write("id=%r\nprop=%r\nedits=%r\nneeds=%r\nbreaks=%r\ndemo=%r\nflags=%r\nr=%r\n" % (b[0], b[1], b[2], b[3], b[4], H + "int main() {\n" + b[5] + "\n  return bad;\n}\n", b[6], b[7]))
print([b[0] for b in B])
