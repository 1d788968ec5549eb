"""P05: components are configured once and record what they are built from."""
import comphist
import vlib

LEVEL = 'model_checking'


def run(chk):
    vlib.stub_git()
    f = 10 if chk.thorough else 1
    hs = comphist.histories(chk, ['configure0', 'configure1'], 4, [1, 2],
                            maxobj=2)
    chk.cov['exhaustive_histories'] = len(hs)
    hs += comphist.histories(chk, ['configure'], 14, [1, 2], 250 * f,
                             maxobj=8)
    hs += comphist.histories(chk, ['configure', 'update', 'save', 'load'],
                             16, [1, 2], 150 * f, maxobj=9)
    chk.rng.shuffle(hs)
    with vlib.scratch() as path:
        comphist.run_histories(chk, hs, path, 700 if chk.thorough else 100)
