'''Writes the "fixed:" lines of known_findings.txt from the table below.'''
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = '''
C01 66f0bc1 an event created with past and future did not relate its past to its future; pasts and futures were not closed
C03 cfd2f49 unlink() of an event that was never linked raised AttributeError (also disjoin(), C04)
C04 6d4da3d links were not repaired from both ends when an event was disjoined
C03 79934a6 LinkConeCard did not count the link future
C23 8f5a12e events without coordinates or position got shared defaults; a given position was not checked
C03 e0dba77 Causet.link() lost links to events outside the causet
C03 8cd2f75 merge() left stale link memory of linked events
C07 72db980 FromPastMatrix neither completed pasts nor detected longer loops
C07 415a404 FromTextFile failed on single rows, columns and entries
C05 bfd129c iterable - causet gave the difference of the wrong order
C09 b00f2bb isPath accepted sets that are not chains
C08 3acbada PastOf/FutureOf/ConeOf with intersect=True returned an empty or wrong set
C13 37d8f19 sorting by labels failed or lost events when labels are missing
C16 8ce8e1b Antipaths continued for unconnected events
C16 981307e Antipaths recursed forever or passed the target for distances counted by intersection
C20 3cec241 sprinkling into bicones ignored centre and hollow interior
C20 b7419b5 sprinkling into one-dimensional bicones and cylinders raised ZeroDivisionError
C25 b38d02f static plots marked events that lie on a link with link markers
C25 63361bc plot with a list of a single time failed
C25 793763e exponential fading did not have the half-time timedepth
C25 6b1bc41 intensity fading towards the past was constant
C28 d78207e HarmonicNumber of a numpy integer such as 65536 was infinite or overflowed
C21 6c8d9ef discard on an empty sprinkled causet failed (division by zero)
C21 6615c01 LengthScale was not the inverse root of the density
C17 7acd8c7 repr() of a CoordinateShape failed
C17 7d92b98 repr() of a FlatSpacetime failed
C19 8fe1d0b flat periodic causality used a wrong modulo for negative differences
C19 895e8ef anti-de Sitter causality ignored the time order and the full past/future of the conformal boundary
C24 76fcf5a coordinates given as list (or empty) were not checked for their dimension
C28 ec01111 HarmonicNumber overflowed for large n
C27 49d9949 an invalid colour value in a colour scheme
C26 973b47a plotting causal cones without fading raised
C25 ccb06d4 axis limits from the embedding shape raised
C25 fd5ac1c dynamic plots with links switched off raised
C03 e26e8d0 LinkCount() of a causet with discarded events counted links to non-members
C09 318b035 isChain/isPath/isAntichain without argument failed on causets with discarded events
C29 d2f5bc6 3D cylinders, bicones and flat light cones with the time along the first or second axis were drawn around a wrong centre (also C26)
C26 ae7e89a the inner part of a Schwarzschild cone was closed at the wrong point, lines joined the copies of periodic cones
C29 fa0fe55 2D cylinders with the time along the first axis were drawn around a wrong centre, hollow shapes with a line between the edges
C29 7e52718 plotting a hollow bicone in 3D shrank the radius of the shape
C05 8c3331c merge of iterables that can be iterated only once lost events
C05 216e890 discarding the events of a causet from itself raised RuntimeError
C16 211164c Antipaths along an iterable that can be iterated only once found nothing
C23 4c5809b copy() turned a float label into a string
C21 5de3c17 a sprinkling shape of another dimension was accepted (broadcast) or raised after the intensity had been changed
C24 9f76dd1 coordinates of another dimension were added before the call failed, or silently accepted (also C21)
C26 6984f45 Newton's method met the horizon exactly and the cone was cut at the default
C19 2a59ad9 two events on the horizon in Eddington-Finkelstein coordinates (an event with itself, too) were never related (also C18)
C25 f6e2cdb the dictionary of handles returned by a plot function was overwritten by its next call
C25 0c2138b a plot function called with an int (or another number of numpy) as time raised a TypeError
C35 7889f21 events with label 0 printed as events without label
C18 dab97a6 relate() left events that were discarded before with one-sided relations to (and links with) members
C20 31098e7 events sprinkled into a region far away from the origin lay outside of it, all on few coordinates (also C29, C30)
'''
FINDINGS = '''
'''
if __name__ == '__main__':
    with open(os.path.join(ROOT, 'known_findings.txt'), 'w') as f:
        for line in FIXED.strip().splitlines():
            f.write('fixed: property=' + line + '\n')
        for line in FINDINGS.strip().splitlines():
            f.write('finding: property=' + line + '\n')
