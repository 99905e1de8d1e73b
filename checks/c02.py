"""C02: first nuclear derivatives of the two-electron integrals."""
from . import c01
def run(ck, tier): c01.run(ck, tier, der=1)
