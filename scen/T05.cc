// T05: producer/consumer.
#include "common.h"
#include "eckit/runtime/ProducerConsumer.h"
using namespace scen;
using dst::gen;

namespace {
struct Pay { std::string text; int n = -1; };
struct World { int produced = 0, consumed = 0, total = 0; int prodFails = -1, consFails = -1, doneFails = -1; bool prodThrew = false, consThrew = false; bool executing = false; int inProduce = 0, inConsume = 0; };
World* w;
std::string text(int i) { return "payload-" + std::to_string(i * 7919) + std::string(size_t(i % 5), 'x'); }
struct P : eckit::Producer<Pay> {
    bool done() override {
        dst::yield();
        if (w->produced == w->doneFails) { w->prodThrew = true; throw eckit::SeriousBug("done fails on purpose"); }
        return w->produced >= w->total;
    }
    void produce(Pay& p) override {
        { dst::Quiet q; DST_CHECK(++w->inProduce == 1, "overlap", "two productions at once"); DST_CHECK(!w->prodThrew && w->produced < w->total, "overrun", "produce called after the end or a failure"); }
        for (uint64_t i = gen(0, 2); i > 0; --i) dst::yield();
        int i = w->produced;
        if (i == w->prodFails) {
            if (gen(0, 1)) { p.text = "half"; p.n = 100000; }
            { dst::Quiet q; w->inProduce--; w->prodThrew = true; }
            throw eckit::SeriousBug("production fails on purpose");
        }
        p.text = text(i); p.n = i;
        dst::Quiet q; w->produced++; w->inProduce--;
    }
};
struct C : eckit::Consumer<Pay> {
    void consume(Pay& p) override {
        { dst::Quiet q; DST_CHECK(w->executing, "after-return", "consume called after execute returned"); DST_CHECK(++w->inConsume == 1, "overlap", "two consumptions at once"); DST_CHECK(!w->consThrew, "overrun", "consume called after it failed"); }
        for (uint64_t i = gen(0, 2); i > 0; --i) dst::yield();
        { dst::Quiet q;
          DST_CHECK(p.n == w->consumed && p.text == text(w->consumed), "payload", "payload %d ('%s') consumed instead of payload %d", p.n, p.text.c_str(), w->consumed);
          w->inConsume--;
          if (w->consumed == w->consFails) { w->consThrew = true; }
          else w->consumed++; }
        if (w->consThrew) throw eckit::SeriousBug("consumption fails on purpose");
        if (gen(0, 1)) { p.text = "used"; p.n = -2; }
    }
};
void run() {
    dst::enableIf(dst::F_SPURIOUS, 0.4, 0.02, 0.3);
    dst::enableIf(dst::F_WAKEORDER, 0.3, 0.1, 0.6);
    long count = long(gen(1, 4));
    int runs = int(gen(1, 3));
    eckit::ProducerConsumer<Pay> pc(count);
    uint64_t h = 0;
    for (int r = 0; r < runs; ++r) {
        w = new World();
        w->total = int(gen(0, 8));
        if (gen(0, 2) == 0) w->prodFails = int(gen(0, 8));
        if (gen(0, 2) == 0) w->consFails = int(gen(0, 8));
        if (gen(0, 7) == 0) w->doneFails = int(gen(0, 8));
        dst::note("run %d: %ld slots, %d payloads, producer fails at %d, consumer at %d, done at %d", r, count, w->total, w->prodFails, w->consFails, w->doneFails);
        bool threw = false;
        P p; C c;
        w->executing = true;
        try { pc.execute(p, c); } catch (eckit::Exception&) { threw = true; }
        { dst::Quiet q; w->executing = false; }
        expectAllThreadsEnded("consumer thread after the end of the run");
        DST_CHECK(threw == (w->prodThrew || w->consThrew), "report", "run %s although %s", threw ? "raised an error" : "raised no error", w->prodThrew ? "the producer failed" : w->consThrew ? "the consumer failed" : "nothing failed");
        if (!threw) DST_CHECK(w->consumed == w->total && w->produced == w->total, "lost", "%d produced, %d consumed of %d", w->produced, w->consumed, w->total);
        DST_CHECK(w->consumed <= w->produced, "payload", "consumed more than produced");
        h = dst::hashMix(h, uint64_t(w->consumed * 16 + w->produced) * 4 + uint64_t(threw));
        if (w->total > 1) dst::nontrivial();
    }
    dst::cover(dst::hashMix(h, uint64_t(count)));
}
}  // namespace
const dst::ScenarioDef dst::scenario = {"T05", initMain, run};
