// P30: DNS storage -- what was registered is found until it expires or is deleted, once, and nothing else is
#include <cassert>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <IoSerialiserYaS.hpp>
#include <services/dns_types.hpp>
#include "common.h"
// a file of its own, in memory (stands in for the operating system, in the symbolic run and in the replay alike)
static std::vector<char> s_file;
static bool              s_there = false;
namespace std {
struct vf_ofstream {
    bool open_;
    vf_ofstream(const char *, std::ios::openmode) : open_(true) { s_there = true; s_file.clear(); }
    bool is_open() const { return open_; }
    vf_ofstream &write(const char *d, long n) { s_file.insert(s_file.end(), d, d + n); return *this; }
    explicit operator bool() const { return open_; }
    bool good() const { return true; }
    bool fail() const { return false; }
    void flush() {}
    void close() { open_ = false; }
};
struct vf_ifstream {
    long at = 0;
    vf_ifstream(const char *, std::ios::openmode) {}
    bool is_open() const { return s_there; }
    void seekg(long o, std::ios::seekdir d) { at = d == std::ios::end ? (long) s_file.size() + o : o; }
    long tellg() const { return at; }
    void read(char *p, long n) { for (long i = 0; i < n; i++) p[i] = s_file[(size_t) (at + i)]; at += n; }
    explicit operator bool() const { return true; }
    bool good() const { return true; }
    void close() {}
};
namespace filesystem { inline bool vf_exists(const char *) { return s_there; } }
}
#define ofstream vf_ofstream
#define ifstream vf_ifstream
#define exists vf_exists
#include <services/dns_storage.hpp>
#undef ofstream
#undef ifstream
#undef exists
using namespace opencmw::service::dns;
#ifndef PRE
#define PRE 2
#endif
#ifndef OPS
#define OPS 4
#endif
static const float NaN = std::numeric_limits<float>::quiet_NaN();
static std::string *field(Entry &e, int f) {
    std::string *p[] = { &e.protocol, &e.hostname, &e.service_name, &e.service_type, &e.signal_name, &e.signal_unit, &e.signal_type };
    return p[f];
}
static bool identical(const Entry &a, const Entry &b) {
    return same(a.protocol, b.protocol) & same(a.hostname, b.hostname) & (a.port == b.port) & same(a.service_name, b.service_name) & same(a.service_type, b.service_type)
         & same(a.signal_name, b.signal_name) & same(a.signal_unit, b.signal_unit) & same(a.signal_type, b.signal_type) & (__builtin_memcmp(&a.signal_rate, &b.signal_rate, sizeof(float)) == 0);
}
static std::string maybe(const char *n) { return symRange("given", 0, 1) ? symString(n, 1) : std::string(); }
// a query matches exactly the entries that agree with it in all fields it gives
HARNESS(h_dns_filter) {
    Entry      e{ "p", "h", 80, "s", "t", "n", "u", 2.5f, "y" };
    QueryEntry q;
    const int  f = (int) symRange("field", 0, 6), g = (int) symRange("other", 0, 6);
    *field(e, f) = maybe("entry");
    *field(q, f) = maybe("query");
    if (g != f) *field(q, g) = maybe("second");
    bool want = true;
    for (int i = 0; i < 7; i++) want &= field(q, i)->empty() || same(*field(q, i), *field(e, i));
    CHECKM((q == e) == want, "a query matches exactly the entries that agree with it in all texts it gives");
    REACH("text");
}
HARNESS(h_dns_filter_num) {
    Entry      e{ "p", "h", (int) sym<int32_t>("port"), "s", "t", "n", "u", sym<float>("rate"), "y" };
    QueryEntry q;
    q.port        = sym<int32_t>("qport");
    q.signal_rate = sym<float>("qrate");
    if (symRange("name", 0, 1)) q.signal_name = symString("n", 1);
    const bool want = (q.port == -1 || q.port == e.port) & (q.signal_rate != q.signal_rate || q.signal_rate == e.signal_rate) & (q.signal_name.empty() || q.signal_name[0] == 'n');
    CHECKM((q == e) == want, "a query matches exactly the entries that agree with it in the numbers it gives");
    REACH("number");
}
// a list of entries in columns holds the same entries
HARNESS(h_dns_flat) {
    std::vector<Entry> v;
    const size_t       n = symRange("n", 0, 3);
    for (size_t i = 0; i < n; i++) {
        Entry e;
        for (int f = 0; f < 7; f++) *field(e, f) = symString("text", (i + (size_t) f) % 2);
        e.port        = sym<int32_t>("port");
        e.signal_rate = sym<float>("rate");
        v.push_back(e);
    }
    FlatEntryList l{ v };
    if (symRange("damage", 0, 1)) {
        std::vector<std::string> *cols[] = { &l.protocol, &l.hostname, &l.service_name, &l.service_type, &l.signal_name, &l.signal_unit, &l.signal_type };
        const int c    = (int) symRange("column", 0, 8);
        const bool add = symRange("longer", 0, 1);
        if (!add && n == 0) return;
        if (c < 7) { if (add) cols[c]->push_back("x"); else cols[c]->pop_back(); }
        else if (c == 7) { if (add) l.port.push_back(1); else l.port.pop_back(); }
        else { if (add) l.signal_rate.push_back(1); else l.signal_rate.pop_back(); }
        bool refused = false;
        try { (void) l.toEntries(); } catch (const std::exception &) { refused = true; }
        CHECKM(refused, "columns of different length are refused");
        REACH("refused");
        return;
    }
    auto w = l.toEntries();
    CHECKM(w.size() == n, "as many entries");
    bool all = true;
    for (size_t i = 0; i < n; i++) all &= identical(v[i], w[i]);
    CHECKM(all, "a list of entries in columns holds the same entries");
    auto q = l.toEntries<QueryEntry>();
    for (size_t i = 0; i < n; i++) all &= identical(v[i], q[i]);
    CHECKM(all && q.size() == n, "also as filters");
    REACH("flat");
}
// histories of registrations, renewals, deletions, expiries and restarts; the names are arbitrary, so that any of the entries may coincide
struct Store : DataStorage { using DataStorage::_entries; };
using Clock = Store::StorageEntryType::clock;
static Entry any() {
    Entry e{ "http", "h", 80, "grp", "t", symString("name", 1), "ms", NaN, "" };
    if (symRange("rated", 0, 1)) e.signal_rate = 2.f;
    return e;
}
static void agree(const std::vector<Entry> &got, const std::vector<Entry> &want, const char *) {
    CHECKM(got.size() == want.size(), "as many entries come back as are registered, none twice");
    bool all = true;
    for (auto &w : want) {
        unsigned n = 0;
        for (auto &g : got) n += identical(g, w);
        all &= n == 1;
    }
    CHECKM(all, "exactly the entries registered come back");
}
template<class P> static std::vector<Entry> take(std::vector<Entry> &ref, P p) { // removes the entries p holds for
    std::vector<Entry> gone, kept;
    for (auto &e : ref) if (symx_branch(p(e))) gone.push_back(e); else kept.push_back(e);
    ref = kept;
    return gone;
}
static void history(int ops) {
    s_there = false;
    s_file.clear();
    auto               s = std::make_unique<Store>();
    std::vector<Entry> ref;
    bool               expired = false;
    for (int k = 0; k < ops; k++) {
        switch (k < PRE ? 0 : symRange("op", 0, 4)) {
        case 0: {
            Entry e = any();
            auto  r = k == 0 ? s->addEntries({ e })[0] : s->addEntry(e);
            CHECKM(identical(r, e), "a registration returns the entry");
            if (!take(ref, [&](const Entry &x) { return identical(x, e); }).empty()) REACH("renewed");
            else if (expired) REACH("slot reused");
            ref.push_back(e);
            break;
        }
        case 1: {
            QueryEntry q;
            q.signal_name = maybe("qname");
            auto gone = take(ref, [&](const Entry &x) { return q.signal_name.empty() || x.signal_name[0] == q.signal_name[0]; });
            if (!gone.empty() && !ref.empty()) REACH("kept");
            agree((k & 1) ? s->deleteEntries(std::vector<QueryEntry>{ q }) : s->deleteEntries(q), gone, "deleted");
            break;
        }
        case 2: {
            Entry e = any();
            agree(s->deleteEntries(e), take(ref, [&](const Entry &x) { return identical(x, e); }), "deleted");
            break;
        }
        case 3: {
            char c = symString("expire", 1)[0];
            for (auto &e : s->_entries) if (e.ttl > Clock::now() && symx_branch(e.signal_name[0] == c)) e.ttl = Clock::now() - std::chrono::seconds(1);
            if (!take(ref, [&](const Entry &x) { return x.signal_name[0] == c; }).empty()) expired = true;
            break;
        }
        default: // restart: the destructor saves, the constructor loads
            s.reset();
            s = std::make_unique<Store>();
            if (expired && !ref.empty()) REACH("restarted");
        }
        agree(s->queryEntries(), ref, "all");
        CHECKM(s->getActiveEntriesCount() == (long) ref.size(), "the number of active entries");
    }
    QueryEntry q;
    q.signal_name = symString("qname", 1);
    agree(s->queryEntries(q), take(ref, [&](const Entry &x) { return x.signal_name[0] == q.signal_name[0]; }), "query");
}
HARNESS(h_dns_history) { history(OPS); }
// whatever was registered survives a restart
HARNESS(h_dns_restart) {
    s_there = false;
    const Entry other{ "http", "h", 80, "grp", "t", "A", "ms", 1.f, "" };
    Entry e{ symString("p", symRange("np", 0, 2)), symString("h", 1), (int) sym<int32_t>("port"), "", symString("t", 1), "n", symString("u", 2), sym<float>("rate"), "" };
    {
        Store s;
        s.addEntry(e);
        s.addEntry(other);
    }
    Store s;
    auto  r = s.queryEntries();
    CHECKM(r.size() == 2 && identical(r[0], e) && identical(r[1], other), "what was registered survives a restart");
    REACH("restarted");
}
