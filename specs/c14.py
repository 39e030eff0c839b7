"""C14: probe bunching (contracts on compute_bunch_size and compute_job_number in utils.cpp)."""
from common import CORE
from cxx2why import FSpec, Loop
U = []
POW = "%s <> (0:BV32.t) /\\ BV32.bw_and %s (BV32.sub %s (1:BV32.t)) = (0:BV32.t)"
OK = ["BV32.uge q (1:BV32.t)", "BV32.uge thr (1:BV32.t)", POW % (("m",) * 3)]
U.append(FSpec("compute_bunch_size(u32,u32,u32)", ["q", "thr", "m"], OK,
               [POW % (("result",) * 3), "BV32.ule result m", "BV32.ule result q"], opts=dict(bv=True)))
U.append(FSpec("compute_job_number(u32,u32,u32,u32)", ["q", "n", "thr", "m"], OK + ["BV32.uge n (1:BV32.t)"],
               ["BV32.uge result (1:BV32.t)", "BV32.ule result q"], opts=dict(bv=True),
               loops={0: Loop(inv=["BV32.ule tmp_queue_length q", "BV32.uge tmp_queue_length (1:BV32.t)", "BV32.ule i n",
                                   "i = (0:BV32.t) \\/ BV32.ult tmp_queue_length q", "i = (0:BV32.t) -> tmp_queue_length = q"],
                              variant="BV32.sub n i with BV32.ult")}))
GROUPS = [dict(unit="u_utils.cpp", specs=U)]
HARNESS = [dict(src="c14.cpp", repo=CORE, budget=(5, 60))]
NOTE = "Proof over 32-bit vectors for every queue length, thread count and power-of-two maximum; the only hypotheses are the property's own (queue and threads nonzero, maximum a power of two)."
