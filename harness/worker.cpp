// P36: the worker -- every request is handled once and answered, access rights hold, notifications follow subscriptions
#include "broker_rest.h"
#define OPENCMW_MUSTACHESERIALISER_H // HTML output (templates) is outside these checks
#include <iosfwd>
#include <string>
namespace cmrc { namespace assets { inline int get_filesystem() { return 0; } } }
namespace opencmw::mustache { template<typename... T> inline void serialise(int, const std::string &, std::ostream &, T &&...) {} }
#include <TimingCtx.hpp>
#include <majordomo/Worker.hpp>
#include "common.h"
using namespace opencmw;
using namespace opencmw::majordomo;
using mdp::Command;
struct TCtx { opencmw::MIME::MimeType contentType = opencmw::MIME::UNKNOWN; int32_t n = 0; };
ENABLE_REFLECTION_FOR(TCtx, contentType, n)
struct TIn { int32_t v = 0; std::string s; };
ENABLE_REFLECTION_FOR(TIn, v, s)
struct TOut { std::string t; int32_t w = 0; };
ENABLE_REFLECTION_FOR(TOut, t, w)
static uint64_t s_now = 1'000'000'000;
extern "C" uint64_t symx_clock_ns() { return s_now; }
#ifdef NATIVE_REPLAY
std::chrono::system_clock::time_point std::chrono::system_clock::now() noexcept { return time_point(std::chrono::duration_cast<duration>(std::chrono::nanoseconds(s_now))); }
std::chrono::steady_clock::time_point std::chrono::steady_clock::now() noexcept { return time_point(std::chrono::duration_cast<duration>(std::chrono::nanoseconds(s_now))); }
#endif
static constexpr const char *W = "MDPW03";
struct Msg {
    std::string prot = W, cmd, srv, req = "r", topic = "/svc", data = "", err = "", rbac = "";
};
static std::string cmd(Command c) { return std::string(1, static_cast<char>(c)); }
static zmqstub::Socket &listener() { return zmqstub::sockets[0]; }
static zmqstub::Socket &dealer() { return zmqstub::sockets[1]; }
static zmqstub::Socket &xpub() { return zmqstub::sockets[2]; }
static zmqstub::Socket &push_() { return zmqstub::sockets[3]; }
static void put(const Msg &m, zmqstub::Socket &s = dealer()) {
    const std::string *f[] = { &m.prot, &m.cmd, &m.srv, &m.req, &m.topic, &m.data, &m.err, &m.rbac };
    for (int i = 0; i < 8; i++) zmqstub::push(s, f[i]->data(), f[i]->size(), i < 7);
}
static int outN(zmqstub::Socket &s) { return zmqstub::sent(s) / 8; }
static Msg out(zmqstub::Socket &s, int k) {
    Msg          m;
    std::string *f[] = { &m.prot, &m.cmd, &m.srv, &m.req, &m.topic, &m.data, &m.err, &m.rbac };
    for (int i = 0; i < 8; i++) f[i]->assign(zmqstub::outData(s, 8 * k + i), zmqstub::outSize(s, 8 * k + i));
    return m;
}
// the worker's loop: each poll asks the script for the next event, and shuts the worker down at its end
static std::function<bool(int)> s_script;
static std::function<void()>    s_stop;
static int                      s_polls;
static int hook(zmq_pollitem_t *, int, long) {
    if (!s_script(s_polls++)) s_stop();
    return 0;
}
template<typename W_> static void run(W_ &w, std::function<bool(int)> script) {
    s_script          = std::move(script);
    s_stop            = [&w] { w.shutdown(); };
    s_polls           = 0;
    zmqstub::pollHook = hook;
    zmqstub::keepSent = true;
    bool threw        = false;
    try { w.run(); } catch (...) { threw = true; }
    CHECKM(!threw, "the worker's loop is not ended by what it receives");
    s_script = nullptr;
    s_stop   = nullptr;
}
static void finish() {
    for (auto &s : zmqstub::sockets) zmqstub::dropSent(s);
    CHECKM(!zmqstub::misuse && zmqstub::live == 0, "messages are released");
}
static Settings settings() {
    Settings s;
    s.workerReconnectInterval = std::chrono::milliseconds(0);
    return s;
}
// one request: handled once, answered once, by what the handler did
HARNESS(h_worker_request) {
    {
        zmq::Context ctx;
        const int    kind = symRange("handler", 0, 3);
        Msg          q{ W, cmd(symRange("set", 0, 1) ? Command::Set : Command::Get), symString("client", 2), symString("req", 2), "/svc?a=b", symString("data", 2), "", symString("rbac", 1) };
        std::string  rdata = symString("rdata", 2), rerr = symString("rerr", 1);
        int          calls = 0;
        BasicWorker<"/svc", description<"what it does">> w(URI<>("mdp://h:1"), [&](RequestContext &c) {
            calls++;
            CHECKM(same(c.request.serviceName, q.srv) & same(c.request.clientRequestID.asString(), q.req) & same(c.request.data.asString(), q.data) & same(c.request.rbac.asString(), q.rbac), "the handler sees the request as it was sent");
            CHECKM(c.request.topic.str() == q.topic && cmd(c.request.command) == q.cmd, "with its topic and command");
            if (kind == 1) throw std::runtime_error("because");
            if (kind == 2) throw 42;
            c.reply.data  = IoBuffer(rdata.data(), rdata.size());
            if (kind == 3) c.reply.error = rerr;
        }, ctx, settings());
        run(w, [&](int k) { if (k < 2) put(q); return k < 2; });
        CHECKM(calls == 2 && outN(dealer()) == 4, "each request is handled once and answered once");
        Msg r = out(dealer(), 0), d = out(dealer(), 3);
        CHECKM(r.prot == W && r.cmd == cmd(Command::Ready) && r.srv == "/svc" && r.data == "what it does", "the worker announces its service first");
        CHECKM(d.prot == W && d.cmd == cmd(Command::Disconnect) && d.srv == "/svc", "and disconnects at the end");
        for (int i = 1; i < 3; i++) {
            Msg a = out(dealer(), i);
            CHECKM(a.prot == W && a.cmd == cmd(Command::Final), "the answer is a final reply");
            CHECKM(same(a.srv, q.srv) & same(a.req, q.req) & same(a.rbac, q.rbac) & (a.topic == q.topic), "to the client that asked, with the request's id, topic and token");
            if (kind == 0) CHECKM(same(a.data, rdata) && a.err.empty(), "with the handler's data");
            else if (kind == 3) CHECKM(same(a.data, rdata) && same(a.err, rerr), "with the handler's error");
            else CHECKM(!a.err.empty() && a.data.empty(), "an exception of the handler is answered as an error");
        }
    }
    finish();
    REACH("done");
}
// who may do what
HARNESS(h_worker_rights) {
    {
        zmq::Context ctx;
        using RO = Role<"READER", Permission::RO>;
        using WO = Role<"WRITER", Permission::WO>;
        const char *tokens[] = { "RBAC=ADMIN,x", "RBAC=READER,x", "RBAC=WRITER,x", "RBAC=NONE,x", "RBAC=OTHER,x", "", "RBAC=READER", "rbac=ADMIN,x" };
        const bool  get[]    = { true, true, false, false, false, false, false, false }, set[] = { true, false, true, false, false, false, false, false };
        int         calls = 0;
        BasicWorker<"/svc", rbac<RO, WO, NONE>> w(URI<>("mdp://h:1"), [&](RequestContext &) { calls++; }, ctx, settings());
        const int  t = symRange("token", 0, 7);
        const bool s = symRange("set", 0, 1);
        run(w, [&](int k) { if (k < 1) put({ W, cmd(s ? Command::Set : Command::Get), "c1", symString("req", 1), "/svc", symString("data", 1), "", tokens[t] }); return k < 1; });
        const bool allowed = s ? set[t] : get[t];
        CHECKM(calls == (allowed ? 1 : 0), "the handler runs exactly for roles that have the right");
        Msg a = out(dealer(), 1);
        CHECKM(outN(dealer()) == 3 && a.cmd == cmd(Command::Final) && a.srv == "c1" && a.err.empty() == allowed && a.data.empty(), "anyone else is answered with an error");
        if (allowed) REACH("allowed"); else REACH("denied");
    }
    finish();
}
// no roles given: everybody may
HARNESS(h_worker_open) {
    {
        zmq::Context ctx;
        int          calls = 0;
        std::string  token = symString("rbac", symRange("n", 0, 2));
        BasicWorker<"/svc"> w(URI<>("mdp://h:1"), [&](RequestContext &) { calls++; }, ctx, settings());
        run(w, [&](int k) { if (k < 1) put({ W, cmd(symRange("set", 0, 1) ? Command::Set : Command::Get), "c1", "1", "/svc", "", "", token }); return k < 1; });
        CHECKM(calls == 1 && out(dealer(), 1).err.empty(), "a worker without roles serves everybody");
        REACH("done");
    }
    finish();
}
// notifications: sent on while someone is subscribed to a matching topic
#ifndef NK
#define NK 2
#endif
HARNESS(h_worker_notify) {
    {
        zmq::Context        ctx;
        BasicWorker<"/svc"> w(URI<>("mdp://h:1"), [](RequestContext &) {}, ctx, settings());
        const std::string topics[] = { "/svc#", "/svc?a=1#", "/other#", "/svc", "//" };
        bool        on[2] = {};
        std::string data = symString("data", 2);
        const int   note = symRange("note", 0, 2);
        const char *notes[] = { "/svc?a=1", "/svc", "/other" };
        run(w, [&](int k) {
            if (k < NK) {
                const int  t = symRange("topic", 0, 4);
                const bool s = symRange("subscribe", 0, 1);
                const auto f = std::string(1, s ? '\x1' : '\x0') + topics[t];
                zmqstub::push(xpub(), f.data(), f.size(), false);
                if (t < 2) on[t] = s;
                if (t == 3) on[0] = s; // without '#': the same topic
            } else if (k == NK) {
                mdp::Message m;
                m.topic = mdp::Message::URI(notes[note]);
                m.data  = IoBuffer(data.data(), data.size());
                CHECKM(w.notify(std::move(m)), "notify() hands the message over");
                zmqstub::deliver(push_(), listener());
            }
            return k <= NK;
        });
        const auto active = w.activeSubscriptions();
        CHECKM(active.size() == size_t(on[0]) + size_t(on[1]), "the active subscriptions are those of this service that were not cancelled");
        SubscriptionMatcher match;
        bool want = false;
        for (int t = 0; t < 2; t++) want |= on[t] && match(mdp::Topic::fromMdpTopic(URI<>(notes[note])), mdp::Topic::fromZmqTopic(topics[t]));
        CHECKM(outN(dealer()) == (want ? 3 : 2), "a notification is sent once if a subscription matches it, and not otherwise");
        if (want) {
            Msg n = out(dealer(), 1);
            CHECKM(n.prot == W && n.cmd == cmd(Command::Notify) && n.srv == "/svc" && n.topic == notes[note] && same(n.data, data), "unchanged");
            REACH("sent");
        } else REACH("dropped");
    }
    finish();
}
// a notification with a topic that is none does not end the worker; nor do stray frames
HARNESS(h_worker_bad) {
    {
        zmq::Context ctx;
        int          calls = 0;
        BasicWorker<"/svc"> w(URI<>("mdp://h:1"), [&](RequestContext &) { calls++; }, ctx, settings());
        run(w, [&](int k) {
            if (k == 0) {
                switch (symRange("kind", 0, 3)) {
                case 0: put({ W, cmd(Command::Notify), "/svc", "r", symRange("t", 0, 1) ? "" : "/?a=1" }, listener()); break;
                case 1: { auto f = symString("sub", symRange("n", 0, 3)); zmqstub::push(xpub(), f.data(), f.size(), false); break; }
                case 2: { const int n = symRange("frames", 1, 9); ASSUME(n != 8); for (int i = 0; i < n; i++) { auto f = symString("f", 1); zmqstub::push(dealer(), f.data(), 1, i + 1 < n); } break; }
                default: put({ W, symString("c", 2), "/svc" }); break;
                }
            }
            if (k == 1 || k == 2) put({ W, cmd(Command::Get), "c1" });
            return k < 3;
        });
        CHECKM(calls == 2, "requests are served afterwards");
        REACH("done");
    }
    finish();
}
// heartbeats, and a broker that is silent, or says goodbye
HARNESS(h_worker_alive) {
    {
        zmq::Context ctx;
        int          calls = 0;
        BasicWorker<"/svc"> w(URI<>("mdp://h:1"), [&](RequestContext &) { calls++; }, ctx, settings());
        const int  kind = symRange("broker", 0, 2); // silent; alive; disconnects
        const bool bye  = kind == 2 && symRange("shutdown", 0, 1);
        run(w, [&](int k) {
            s_now += 1'100'000'000;
            if (kind == 1) put({ W, cmd(Command::Heartbeat), "/svc" });
            if (kind == 2 && k == 0) put({ W, cmd(Command::Disconnect), "/svc", "r", "/svc", bye ? "broker shutdown" : "other" });
            return k < 4;
        });
        int beats = 0, readies = 0, disconnects = 0;
        for (auto &s : zmqstub::sockets) for (int i = 0; i < outN(s); i++) {
            Msg m = out(s, i);
            beats += m.cmd == cmd(Command::Heartbeat);
            readies += m.cmd == cmd(Command::Ready);
            disconnects += m.cmd == cmd(Command::Disconnect);
        }
        CHECKM(disconnects == 1, "the worker disconnects once, at the end");
        if (kind == 0) { CHECKM(readies == 2 && s_polls == 5, "a worker whose broker is silent for as long as the liveness says connects again"); REACH("silent"); }
        if (kind == 1) { CHECKM(readies == 1 && beats >= 3 && s_polls == 5, "a worker sends heartbeats, and stays connected to a broker that does"); REACH("alive"); }
        if (kind == 2 && bye) { CHECKM(readies == 1 && s_polls == 1, "a worker stops when the broker shuts down"); REACH("bye"); }
        if (kind == 2 && !bye) { CHECKM(readies >= 2, "a worker told to disconnect connects again"); REACH("again"); }
    }
    finish();
}

// typed workers: the callback gets what the client encoded, the client can decode what the callback returned
template<typename P> static std::string enc(const auto &v) { IoBuffer b; opencmw::serialise<P>(b, v); return std::string(reinterpret_cast<const char *>(b.data()), b.size()); }
template<typename P> static void typed(const char *mime) {
    {
        zmq::Context ctx;
        int          calls = 0;
        TIn          in;
        TOut         res;
        const int    kind = symRange("kind", 0, 3); // fine; callback throws; body cannot be decoded; empty body
        const char  *words[] = { "", "ab", "\"x\\" };
        if (std::is_same_v<P, Json>) { in.v = symRange("neg", 0, 1) ? -17 : 2000000000; in.s = words[symRange("s", 0, 2)]; res.w = symRange("w", 0, 1) ? -1 : 5; res.t = words[symRange("t", 0, 2)]; }
        else { in.v = sym<int32_t>("v"); in.s = symString("s", 2); res.w = sym<int32_t>("w"); res.t = symString("t", symRange("nt", 0, 2)); noNul(in.s); noNul(res.t); }
        if (kind == 3) in = TIn{};
        Worker<"/svc", TCtx, TIn, TOut> w(URI<>("mdp://h:1"), [&](RequestContext &, const TCtx &c, const TIn &i, TCtx &rc, TOut &o) {
            calls++;
            CHECKM(i.v == in.v && same(i.s, in.s), "the callback gets the value the client encoded");
            CHECKM(c.n == 7, "and the context of the topic");
            rc.n = 8;
            o = res;
            if (kind == 1) throw std::runtime_error("no");
        }, ctx, settings());
        std::string body = enc<P>(in);
        if (kind == 2) body = std::is_same_v<P, Json> ? "[1" : body.substr(0, 7);
        if (kind == 3) body.clear();
        run(w, [&](int k) { if (k < 1) put({ W, cmd(Command::Set), "c1", "1", std::string("/svc?n=7&contentType=") + mime, body }); return k < 1; });
        Msg a = out(dealer(), 1);
        CHECKM(outN(dealer()) == 3 && a.cmd == cmd(Command::Final) && a.srv == "c1", "a request is answered once");
        if (kind == 0 || kind == 3) {
            CHECKM(calls == 1 && a.err.empty(), "without error");
            TOut     back;
            IoBuffer d(a.data.data(), a.data.size());
            auto     r = opencmw::deserialise<P, opencmw::ProtocolCheck::LENIENT>(d, back);
            CHECKM(r.exceptions.empty() && back.w == res.w && same(back.t, res.t), "with the callback's result, in the encoding asked for");
            auto q = URI<>(a.topic).queryParamMap();
            CHECKM(q.contains("n") && q["n"] == "8", "and the callback's context as topic");
            REACH("fine");
        } else {
            CHECKM(!a.err.empty() && a.data.empty(), "a failing callback or a body that cannot be decoded is answered as an error");
            CHECKM(calls == (kind == 1 ? 1 : 0), "the callback does not run on a body that cannot be decoded");
            REACH("error");
        }
    }
    finish();
}
HARNESS(h_worker_typed_yas) { typed<YaS>("application%2Foctet-stream"); }
HARNESS(h_worker_typed_cmw) { typed<CmwLight>("application%2Fcmwlight"); }
HARNESS(h_worker_typed_json) { typed<Json>("application%2Fjson"); }
