// S02: full-format file contents equal a byte array, attributes survive.
#include "bytefile.h"
using namespace vp;
static void small(Ctx& c)
{
    FsConfig cf = gen_config(c.s, true);
    cf.verify = !c.s.chance(1, 10);
    ByteHist h(c, cf, std::min<uint64_t>(9 * cf.block + 7, 20000));
    h.setup(1 + c.s.below(3));
    h.run(2 + (int)c.s.below(40));
}
static void large(Ctx& c)
{
    FsConfig cf = gen_config(c.s, true);
    cf.block = c.s.pick({4096u, 1024u, 65536u, 5000u, 1048576u});
    ByteHist h(c, cf, std::max<uint64_t>(300000, 2 * cf.block + 100));
    h.setup(1);
    h.run(2 + (int)c.s.below(10));
}
// More files than the object cache holds, so that objects are evicted and reopened between operations.
static void many(Ctx& c)
{
    FsConfig cf = gen_config(c.s, true);
    ByteHist h(c, cf, 300);
    h.setup(70 + c.s.below(30));
    h.run(20 + (int)c.s.below(60));
}
int main(int argc, char** argv)
{
    Prop p;
    p.id = "S02";
    p.rule = "A case draws block size (32..1 MiB), IV size (12..32), padding, time storage and table layout, and a history of up to 40 "
             "writes, reads, truncations, syncs, reopenings, O_TRUNC opens and remounts on 1-3 files (many: about 80, beyond the object "
             "cache) with offsets biased to block boundaries and the end of file; every read and size is compared with a byte array, "
             "and whole files, mode, owner and link count at the end and after remounting. Non-trivial: at least 4 modifications, 2 of "
             "them not block-aligned; distinct by choice sequence.";
    p.quick_cases = 30000;
    p.thorough_cases = 1000000;
    p.tests = {{"small", small, 30}, {"large", large, 3}, {"many", many, 1}};
    p.init = [] { securefs::global_logger.reset(); umask(0); };
    return run_main(argc, argv, p);
}
