"""Per property: (technique, level note) for MANIFEST.json; NA: reasons for properties that are not claimed."""
CERT = 'recorded calls of the real code validated against the specification with exact certificates'
BASE = ('Every recorded answer on the generated cases is decided exactly (rational arithmetic, certificates re-checked by TLC) against the '
        'specification; inputs are sampled, not enumerated. Trusted: TLC, the Java overrides (self-tested), numerical tolerances of the specification.')
NOTES = {
 'P01': (CERT, BASE), 'P02': (CERT, BASE), 'P03': (CERT, BASE),
 'P04': (CERT, BASE), 'P05': (CERT, BASE), 'P06': (CERT, BASE), 'P07': (CERT, BASE), 'P08': (CERT, BASE),
 'P12': (CERT, BASE), 'P13': (CERT, BASE),
 'P09': (CERT, BASE), 'P10': (CERT, BASE), 'P11': (CERT, BASE),
 'P14': (CERT, BASE), 'P15': (CERT, BASE), 'P16': (CERT, BASE), 'P17': (CERT, BASE), 'P18': (CERT, BASE), 'P24': (CERT, BASE),
 'P19': (CERT, BASE), 'P20': (CERT, BASE), 'P21': (CERT, BASE), 'P22': (CERT, BASE), 'P23': (CERT, BASE), 'P25': (CERT, BASE), 'P26': (CERT, BASE),
 'P27': ('model of request histories; its behaviours replayed on the real code, every answer validated against the answer of a fresh process',
         'The design model (Requests.tla) is explored exhaustively within its bounds and rejects five wrong designs; its histories are replayed on the real objects. '
         'Inputs are sampled. Trusted: TLC, the Java overrides (self-tested), numerical tolerances of the specification.'),
}
NA = {}
