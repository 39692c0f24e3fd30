// S01: lite file contents equal a byte array.
#include "bytefile.h"
using namespace vp;
static void small(Ctx& c)
{
    FsConfig cf = gen_config(c.s, false);
    cf.verify = !c.s.chance(1, 10);
    ByteHist h(c, cf, std::min<uint64_t>(9 * cf.block + 7, 20000));
    h.setup(1 + c.s.below(2));
    h.run(2 + (int)c.s.below(40));
}
static void large(Ctx& c)
{
    FsConfig cf = gen_config(c.s, false);
    cf.block = c.s.pick({4096u, 1024u, 65536u, 5000u, 1048576u});
    ByteHist h(c, cf, std::max<uint64_t>(300000, 2 * cf.block + 100));
    h.setup(1);
    h.run(2 + (int)c.s.below(10));
}
int main(int argc, char** argv)
{
    Prop p;
    p.id = "S01";
    p.rule = "A case draws block size (32..1 MiB), IV size (12..32), padding, and a history of up to 40 writes, reads, truncations, "
             "syncs, reopenings, O_TRUNC opens and remounts on one or two files with offsets biased to block boundaries and the end "
             "of file; every read and size is compared with a byte array, and the whole file at the end and after remounting. "
             "Non-trivial: at least 4 modifications, 2 of them not block-aligned; distinct by choice sequence.";
    p.quick_cases = 40000;
    p.thorough_cases = 1000000;
    p.tests = {{"small", small, 9}, {"large", large, 1}};
    p.init = [] { securefs::global_logger.reset(); umask(0); };
    return run_main(argc, argv, p);
}
