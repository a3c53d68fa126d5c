"""Run in a process of its own: Coulomb elements for every thread count and
chunk size; results to an .npz file."""
import sys

import numba
import numpy as np


def main(out, lbig, lthr):
    from quantum_systems.quantum_dots.two_dim.two_dim_helper import (
        get_coulomb_elements)

    get_coulomb_elements(1)
    res = {}
    nmax = numba.config.NUMBA_NUM_THREADS
    for l in lthr:
        for n in range(1, nmax + 1):
            numba.set_num_threads(n)
            for chunk in (0, 1, 2, 3, 5, l):
                numba.set_parallel_chunksize(chunk)
                for rep in (0, 1):
                    res[f"{l}_{n}_{chunk}_{rep}"] = get_coulomb_elements(l)
    numba.set_parallel_chunksize(0)
    numba.set_num_threads(nmax)
    for l in lbig:
        res[f"big_{l}"] = get_coulomb_elements(l)
    np.savez(out, **res)


if __name__ == "__main__":
    main(sys.argv[1], [int(x) for x in sys.argv[2].split(",")],
         [int(x) for x in sys.argv[3].split(",")])
