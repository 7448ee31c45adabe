"""Assumptions common to every check, and per property."""

COMMON = [
    'floats are modelled as exact reals: rounding, overflow, NaN/inf inputs and signed zero are outside the claim',
    'array shapes, list lengths and iteration counts are the fixed ones listed per case; values are symbolic',
    'numpy (and the scipy/cv2/sklearn routines used) behaves as documented: it is replaced by an exact stand-in '
    '(symx/snp.py, symx/stubs.py) validated by replaying a witness of the explored paths on the real libraries',
    'inverse trigonometric values are abstracted by their range, sign and exact sine/cosine',
]
C30 = [
    'at most the number of columns and entries listed per case; all loops are unwound completely',
    'the functions of Python, numpy and CHOLMOD behave as cbmc/lchol.c models their documented contracts, and allocation succeeds',
]
PER = {}


def assumptions(prop):
    return C30 if prop == 'C30' else COMMON + PER.get(prop, [])
