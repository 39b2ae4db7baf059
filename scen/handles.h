// A data handle that belongs to the simulator: the bytes it holds are the reference, and it may be slow, give short
// transfers or fail wherever a real handle may.
#pragma once
#include "common.h"
#include "eckit/io/DataHandle.h"
#include "eckit/log/Log.h"
namespace scen {

struct Store {
    std::string bytes;
    bool writeFailed = false, shortWrite = false, readFailed = false, closeFailed = false, flushFailed = false, openFailed = false;
    int opens = 0, closes = 0, writes = 0, reads = 0, flushes = 0, inUse = 0, destroyed = 0, live = 0;
    bool isOpen = false;
    bool anyWriteFault() const { return writeFailed || shortWrite || closeFailed || flushFailed || openFailed; }
};

class SimHandle : public eckit::DataHandle {
public:
    std::shared_ptr<Store> st;
    uint64_t pos = 0;
    bool reading = false, open = false;
    int64_t announce = -1;       // length announced on opening (-1: the true one)
    bool seekable = true;
    bool mayThrowOnRead = true, mayReturnNegative = true, flushable = true;
    int restarts = 0;            // how many restarts it may ask for (F_RESTART)
    bool yields = true;
    SimHandle(std::shared_ptr<Store> s) : st(s) { dst::Quiet q; st->live++; }
    ~SimHandle() override { dst::Quiet q; st->live--; st->destroyed++; DST_CHECK(st->inUse == 0, "destroyed-in-use", "underlying handle destroyed while in use"); }
    struct Use {
        SimHandle& h;
        Use(SimHandle& x) : h(x) { { dst::Quiet q; DST_CHECK(++h.st->inUse == 1, "overlap", "underlying handle used by two threads at once"); } pause(); }
        ~Use() { dst::Quiet q; h.st->inUse--; }
        void pause() { if (h.yields) for (uint64_t i = gen3(); i > 0; --i) dst::yield(); }
        uint64_t gen3() { return dst::gen(0, 2); }
    };
    void opened(bool r) { open = true; reading = r; dst::Quiet q; st->opens++; st->isOpen = true; }
    void failOpen() { if (dst::fire(dst::F_OPENERR)) { st->openFailed = true; throw eckit::CantOpenFile("simulated"); } }
    eckit::Length openForRead() override { Use u(*this); failOpen(); pos = 0; opened(true); return announce >= 0 ? announce : int64_t(st->bytes.size()); }
    void openForWrite(const eckit::Length&) override { Use u(*this); failOpen(); pos = 0; st->bytes.clear(); opened(false); }
    void openForAppend(const eckit::Length&) override { Use u(*this); failOpen(); pos = st->bytes.size(); opened(false); }
    long read(void* b, long n) override {
        Use u(*this);
        st->reads++;
        if (!open || !reading) throw eckit::SeriousBug("SimHandle: read while not open for reading");
        if (dst::fire(dst::F_READERR)) {
            st->readFailed = true;
            if (mayReturnNegative && (!mayThrowOnRead || dst::gen(0, 1))) return -1;
            throw eckit::ReadError("simulated");
        }
        uint64_t avail = pos < st->bytes.size() ? st->bytes.size() - pos : 0;
        uint64_t k = std::min<uint64_t>(avail, n < 0 ? 0 : uint64_t(n));
        if (k > 1 && dst::fire(dst::F_SHORTREAD)) k = 1 + dst::gen(0, k - 2);
        memcpy(b, st->bytes.data() + std::min<uint64_t>(pos, st->bytes.size()), k);
        pos += k;
        return long(k);
    }
    void put(const char* b, uint64_t n) {
        if (st->bytes.size() < pos) st->bytes.resize(pos, '\0');
        uint64_t over = std::min<uint64_t>(n, st->bytes.size() - pos);
        st->bytes.replace(pos, over, b, n);
        pos += n;
    }
    long write(const void* b, long n) override {
        Use u(*this);
        st->writes++;
        if (!open || reading) throw eckit::SeriousBug("SimHandle: write while not open for writing");
        const char* c = static_cast<const char*>(b);
        if (n > 0 && restarts > 0 && dst::fire(dst::F_RESTART)) { restarts--; onRestart(); }
        if (n > 0 && dst::fire(dst::F_WRITEERR)) {
            put(c, dst::gen(0, uint64_t(n)));
            st->writeFailed = true;
            if (dst::gen(0, 1)) return -1;
            throw eckit::WriteError("simulated");
        }
        uint64_t k = n < 0 ? 0 : uint64_t(n);
        if (k > 0 && dst::fire(dst::F_SHORTWRITE)) { k = dst::gen(0, k - 1); st->shortWrite = true; }
        put(c, k);
        return long(k);
    }
    virtual void onRestart() {}
    void flush() override {
        Use u(*this);
        st->flushes++;
        if (dst::fire(dst::F_SYNCERR)) { st->flushFailed = true; throw eckit::WriteError("simulated flush"); }
    }
    void close() override {
        Use u(*this);
        st->closes++;
        bool w = open && !reading;
        open = false; st->isOpen = false;
        if (w && dst::fire(dst::F_CLOSEERR)) { st->closeFailed = true; throw eckit::WriteError("simulated close"); }
    }
    eckit::Length size() override { return int64_t(st->bytes.size()); }
    eckit::Length estimate() override { return announce >= 0 ? announce : int64_t(st->bytes.size()); }
    eckit::Offset position() override { return int64_t(pos); }
    eckit::Offset seek(const eckit::Offset& o) override { if (!seekable) throw eckit::NotImplemented("SimHandle::seek", Here()); pos = uint64_t((long long)(o)); return o; }
    bool canSeek() const override { return seekable; }
    void skip(const eckit::Length& l) override { if (!seekable) throw eckit::NotImplemented("SimHandle::skip", Here()); pos += uint64_t((long long)(l)); }
    void rewind() override { if (!seekable) throw eckit::NotImplemented("SimHandle::rewind", Here()); pos = 0; }
    void restartReadFrom(const eckit::Offset& o) override { pos = uint64_t((long long)(o)); }
    void restartWriteFrom(const eckit::Offset& o) override { pos = uint64_t((long long)(o)); }
    eckit::DataHandle* clone() const override { auto* h = new SimHandle(st); h->announce = announce; h->seekable = seekable; h->mayThrowOnRead = mayThrowOnRead; h->mayReturnNegative = mayReturnNegative; return h; }
    void print(std::ostream& s) const override { s << "SimHandle"; }
    std::string title() const override { return "SimHandle"; }
};
inline std::shared_ptr<Store> newStore(const std::string& s = "") { auto p = std::make_shared<Store>(); p->bytes = s; return p; }
}  // namespace scen
