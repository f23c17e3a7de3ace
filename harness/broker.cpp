// P35: the broker -- requests, replies and notifications reach the peers they are meant for
#include "broker_rest.h"
#include <majordomo/Broker.hpp>
#include "common.h"
using namespace opencmw;
using namespace opencmw::majordomo;
using mdp::Command;
static uint64_t s_now = 1'000'000'000;
extern "C" uint64_t symx_clock_ns() { return s_now; }
#ifdef NATIVE_REPLAY
std::chrono::system_clock::time_point std::chrono::system_clock::now() noexcept { return time_point(std::chrono::duration_cast<duration>(std::chrono::nanoseconds(s_now))); }
std::chrono::steady_clock::time_point std::chrono::steady_clock::now() noexcept { return time_point(std::chrono::duration_cast<duration>(std::chrono::nanoseconds(s_now))); }
#endif
static void sleepMs(uint64_t ms) { s_now += ms * 1'000'000; }

struct Msg {
    std::string src, prot, cmd, srv, req = "r", topic = "/", data = "", err = "", rbac = "";
};
static constexpr const char *C = "MDPC03", *W = "MDPW03";
static std::string cmd(Command c) { return std::string(1, static_cast<char>(c)); }
static zmqstub::Socket &router() { return zmqstub::sockets[0]; }
static zmqstub::Socket &pub() { return zmqstub::sockets[1]; }
static zmqstub::Socket &sub() { return zmqstub::sockets[2]; }
static void put(const Msg &m, zmqstub::Socket &s = router()) {
    const std::string *f[] = { &m.src, &m.prot, &m.cmd, &m.srv, &m.req, &m.topic, &m.data, &m.err, &m.rbac };
    for (int i = 0; i < 9; i++) zmqstub::push(s, f[i]->data(), f[i]->size(), i < 8);
}
static int outN(zmqstub::Socket &s) { return zmqstub::sent(s) / 9; }
static Msg out(zmqstub::Socket &s, int k) {
    Msg          m;
    std::string *f[] = { &m.src, &m.prot, &m.cmd, &m.srv, &m.req, &m.topic, &m.data, &m.err, &m.rbac };
    for (int i = 0; i < 9; i++) f[i]->assign(zmqstub::outData(s, 9 * k + i), zmqstub::outSize(s, 9 * k + i));
    return m;
}
static bool is(const Msg &a, const Msg &b) {
    return same(a.src, b.src) & same(a.prot, b.prot) & same(a.cmd, b.cmd) & same(a.srv, b.srv) & same(a.req, b.req) & same(a.topic, b.topic) & same(a.data, b.data) & same(a.err, b.err) & same(a.rbac, b.rbac);
}
static void clear() { zmqstub::dropSent(router()); zmqstub::dropSent(pub()); zmqstub::dropSent(sub()); zmqstub::dropSent(zmqstub::sockets[3]); }
// one step of the broker's loop; an exception would end run()
template<typename B> static void step(B &b) {
    bool threw = false, ok = false;
    try { ok = b.processMessages(); } catch (...) { threw = true; }
    CHECKM(!threw && ok, "the broker's loop goes on, whatever it received");
}
static void ready(const std::string &w, const std::string &srv = "/svc") { put({ w, W, cmd(Command::Ready), srv }); }

// a request and its reply, every field symbolic
HARNESS(h_broker_request) {
    {
        Broker<> b("/Broker");
        ready("w1");
        step(b);
        clear();
        for (int round = 0; round < 2; round++) {
            const bool set = symRange("set", 0, 1);
            Msg        q{ "c1", C, cmd(set ? Command::Set : Command::Get), "/svc", symString("req", 1), "/svc?a=b", symString("data", 2), symString("err", 1), symString("rbac", 1) };
            put(q);
            step(b);
            CHECKM(outN(router()) == 1 && outN(pub()) == 0, "a request is forwarded once");
            Msg f = q;
            f.src = "w1"; f.prot = W; f.srv = "c1";
            CHECKM(is(out(router(), 0), f), "the worker gets the request unchanged, addressed with the client's id");
            clear();
            Msg r{ "w1", W, cmd(Command::Final), "c1", symString("rreq", 1), "/svc?c=d", symString("rdata", 2), symString("rerr", 1), symString("rrbac", 1) };
            put(r);
            step(b);
            CHECKM(outN(router()) == 1 && outN(pub()) == 0, "a reply is forwarded once");
            Msg g = r;
            g.src = "c1"; g.prot = C; g.srv = "/svc";
            CHECKM(is(out(router(), 0), g), "the client gets the reply unchanged, from the service");
            clear();
        }
    }
    CHECKM(!zmqstub::misuse && zmqstub::live == 0 && zmqstub::nOpen == 0, "messages and sockets are released");
    REACH("done");
}

#ifndef HK
#define HK 3
#endif
// every history of HK events of two workers and two clients of one service
HARNESS(h_broker_history) {
    Broker<> b("/Broker");
    ready("w1");
    step(b);
    clear();
    std::deque<Msg>          queue;
    std::vector<std::string> waiting{ "w1" };
    std::string              busy[2]; // client served by w1, w2
    bool                     known[2] = { true, false };
    int                      nReq = 0;
    for (int k = 0; k < HK + (int) 1; k++) {
        Msg  reply;
        bool replied = false;
        switch (const int e = k == 0 ? 1 : symRange("event", 0, 4)) {
        case 0: ASSUME(!known[1]); known[1] = true; ready("w2"); waiting.push_back("w2"); break;
        case 1:
        case 2: {
            Msg q{ e == 1 ? "c1" : "c2", C, cmd(Command::Get), "/svc", std::string(1, (char) ('0' + nReq++)), "/svc", symString("data", 1) };
            put(q);
            queue.push_back(q);
            break;
        }
        default: {
            const int w = e - 3;
            ASSUME(!busy[w].empty());
            reply = { w ? "w2" : "w1", W, cmd(Command::Final), busy[w], "9", "/svc", symString("rdata", 1) };
            put(reply);
            replied   = true;
            reply.src = busy[w]; reply.prot = C; reply.srv = "/svc";
            waiting.push_back(w ? "w2" : "w1");
            busy[w].clear();
        }
        }
        step(b);
        int replies = 0;
        for (int i = 0; i < outN(router()); i++) {
            Msg m = out(router(), i);
            if (m.prot == C) {
                CHECKM(replied && replies == 0 && is(m, reply), "a reply goes once, unchanged, to the client whose request it answers");
                replies++;
            } else {
                CHECKM(!queue.empty(), "no request is forwarded twice");
                Msg q = queue.front();
                queue.pop_front();
                auto it = std::find(waiting.begin(), waiting.end(), m.src);
                CHECKM(it != waiting.end(), "a request goes to a worker that waits for one");
                waiting.erase(it);
                busy[m.src == "w2"] = q.src;
                q.srv = q.src; q.src = m.src; q.prot = W;
                CHECKM(is(m, q), "requests are forwarded in the order they came, unchanged");
            }
        }
        CHECKM(replies == (replied ? 1 : 0), "no reply is lost");
        CHECKM(queue.empty() || waiting.empty(), "a request is forwarded as soon as a worker waits");
        if (!queue.empty()) REACH("queued");
        clear();
    }
    REACH("done");
}

// requests that wait are served by the priority of their role, then in order
HARNESS(h_broker_roles) {
    using R1 = Role<"ALPHA", Permission::RW>;
    using R2 = Role<"BETA", Permission::RW>;
    Broker<R1, R2, ANY> b("/Broker");
    ready("w1");
    put({ "c0", C, cmd(Command::Get), "/svc" });
    step(b);
    clear();
    const char *tokens[] = { "RBAC=ALPHA,x", "RBAC=BETA,x", "RBAC=OTHER,x", "nothing" };
    int         prio[3];
    for (int i = 0; i < 3; i++) {
        const int t = symRange("role", 0, 3);
        prio[i]     = t > 2 ? 2 : t;
        Msg q{ "c1", C, cmd(Command::Set), "/svc", std::string(1, (char) ('0' + i)), "/svc", "", "", tokens[t] };
        put(q);
    }
    step(b);
    CHECKM(outN(router()) == 0, "requests wait while the worker is busy");
    bool served[3] = {};
    for (int n = 0; n < 3; n++) {
        put({ "w1", W, cmd(Command::Final), n ? "c1" : "c0" });
        step(b);
        int best = -1;
        for (int i = 0; i < 3; i++) if (!served[i] && (best < 0 || prio[i] < prio[best])) best = i;
        bool found = false;
        for (int i = 0; i < outN(router()); i++) {
            Msg m = out(router(), i);
            if (m.prot != W) continue;
            CHECKM(!found && m.req == std::string(1, (char) ('0' + best)), "the oldest request of the role with the highest priority comes next");
            found = true;
        }
        CHECKM(found, "each waiting request is served");
        served[best] = true;
        clear();
    }
    REACH("done");
}

// notifications reach exactly the clients that are subscribed to a matching topic
#ifndef SK
#define SK 3
#endif
HARNESS(h_broker_subscribe) {
    Broker<> b("/Broker");
    ready("w1");
    step(b);
    clear();
    const std::string topics[] = { "/svc?a=1", "/svc" };
    bool              on[2][2] = {};
    for (int k = 0; k < SK; k++) {
        const int c = symRange("client", 0, 1), t = k < 2 ? 0 : symRange("topic", 0, 1);
        const bool s = symRange("subscribe", 0, 1);
        put({ c ? "c2" : "c1", C, cmd(s ? Command::Subscribe : Command::Unsubscribe), "/svc", "r", topics[t] });
        step(b);
        on[c][t] = s;
        CHECKM(outN(router()) == 0 && outN(pub()) == 0, "a subscription is not answered");
    }
    // the worker's side of the subscription: the SUB socket is subscribed as long as anyone is
    for (int t = 0; t < 2; t++) {
        const auto z = mdp::Topic::fromMdpTopic(URI<>(topics[t])).toZmqTopic();
        int        n = 0;
        for (int i = 0; i < sub().nOpts; i++) if (std::string_view(sub().opts[i].value, sub().opts[i].size) == z) n += sub().opts[i].option == ZMQ_SUBSCRIBE ? 1 : -1;
        CHECKM(n == ((on[0][t] || on[1][t]) ? 1 : 0), "the workers know a topic as subscribed as long as a client is");
    }
    const std::string  notes[] = { "/svc?a=1", "/svc?a=2", "/other" };
    const std::string &note = notes[symRange("note", 0, 2)];
    Msg                n{ "w1", W, cmd(Command::Notify), "/svc", "5", note, symString("data", 2), symString("err", 1), "q" };
    put(n);
    step(b);
    SubscriptionMatcher match;
    int                 want[2] = {}, got[2] = {}, wantPub = 0;
    for (int t = 0; t < 2; t++) {
        if (!match(mdp::Topic::fromMdpTopic(URI<>(note)), mdp::Topic::fromMdpTopic(URI<>(topics[t])))) continue;
        for (int c = 0; c < 2; c++) want[c] += on[c][t];
        wantPub += on[0][t] || on[1][t];
    }
    n.prot = C; n.cmd = cmd(Command::Final); n.srv = "/svc";
    for (int i = 0; i < outN(router()); i++) {
        Msg  m = out(router(), i), e = n;
        e.src  = m.src;
        CHECKM((m.src == "c1" || m.src == "c2") && is(m, e), "a notification arrives unchanged");
        got[m.src == "c2"]++;
    }
    CHECKM(got[0] == want[0] && got[1] == want[1], "a client gets a notification once for each of its subscriptions that matches");
    CHECKM(outN(pub()) == wantPub, "and the publishing socket once for each subscribed topic that matches");
    if (want[0]) REACH("delivered");
    if (!want[0] && !want[1]) REACH("nobody");
}
// subscriptions over the publishing socket
HARNESS(h_broker_xpub) {
    Broker<> b("/Broker");
    ready("w1");
    step(b);
    clear();
    std::string f = symString("sub", symRange("n", 0, 3));
    zmqstub::push(pub(), f.data(), f.size(), false);
    step(b);
    zmqstub::push(pub(), "\x01/svc#", 6, false);
    step(b);
    step(b);
    put({ "w1", W, cmd(Command::Notify), "/svc", "5", "/svc", symString("data", 1) });
    step(b);
    int n = 0;
    for (int i = 0; i < outN(pub()); i++) n += out(pub(), i).src == "/svc#";
    CHECKM(n == 1 && outN(router()) == 0, "a subscriber of the publishing socket gets the notification once, whatever was received there before");
    clear();
    zmqstub::push(pub(), "\x00/svc#", 6, false);
    step(b);
    put({ "w1", W, cmd(Command::Notify), "/svc", "5", "/svc" });
    step(b);
    n = 0;
    for (int i = 0; i < outN(pub()); i++) n += out(pub(), i).src == "/svc#";
    CHECKM(n == 0, "and none after it unsubscribed");
    REACH("done");
}
// what a client may ask of a worker: GET and SET, nothing else
HARNESS(h_broker_commands) {
    Broker<> b("/Broker");
    ready("w1");
    step(b);
    clear();
    unsigned char c = sym<unsigned char>("cmd");
    Msg           q{ "c1", C, std::string(1, (char) c), "/svc", "1", "/svc", symRange("shutdown", 0, 1) ? "broker shutdown" : "" };
    put(q);
    step(b);
    if (symx_branch(c == 1) || symx_branch(c == 2)) {
        CHECKM(outN(router()) == 1 && out(router(), 0).src == "w1", "GET and SET requests are forwarded");
        REACH("forwarded");
    } else {
        for (int i = 0; i < outN(router()); i++) CHECKM(out(router(), i).src != "w1", "a client's message that is no GET or SET does not reach the worker");
        clear();
        put({ "c2", C, cmd(Command::Get), "/svc", "2", "/svc" });
        step(b);
        CHECKM(outN(router()) == 1 && out(router(), 0).src == "w1" && out(router(), 0).srv == "c2", "and the worker still serves others");
        REACH("dropped");
    }
}
// a request for a service nobody offers is answered
HARNESS(h_broker_unknown) {
    Broker<> b("/Broker");
    ready("w1");
    step(b);
    clear();
    Msg q{ "c1", C, cmd(symRange("set", 0, 1) ? Command::Set : Command::Get), symRange("empty", 0, 1) ? "" : "/none", symString("req", 2), "/none", symString("data", 1), "", "x" };
    put(q);
    step(b);
    CHECKM(outN(router()) == 1, "a request for an unknown service is answered once");
    Msg m = out(router(), 0);
    CHECKM(m.src == "c1" && m.cmd == cmd(Command::Final) && same(m.req, q.req) && !m.err.empty() && m.data.empty(), "with an error, to the client that asked");
    REACH("done");
}
// workers: whatever two of them say (and however long they are silent), requests go to live ones, each once
#ifndef WK
#define WK 2
#endif
HARNESS(h_broker_worker) {
    {
        Broker<> b("/Broker");
        ready("w1");
        put({ "c1", C, cmd(Command::Get), "/svc", "0", "/svc" }); // w1 is busy with it
        step(b);
        clear();
        const char *services[] = { "/svc", "c1", "/two", "nobody" };
        for (int k = 0; k < WK; k++) {
            unsigned char c = sym<unsigned char>("cmd");
            ASSUME(c >= 3 && c <= 10 && c != 7 && c != 8);
            const bool final_ = symx_branch(c == 4) || symx_branch(c == 3);
            put({ symRange("worker", 0, 1) ? "w2" : "w1", W, std::string(1, (char) c), services[final_ ? symRange("to", 0, 1) * 2 + 1 : symRange("srv", 0, 1) * 2], "1", "/svc", symString("d", 1) });
            step(b);
            for (int i = 0; i < outN(router()); i++) CHECKM(out(router(), i).src != "nobody", "nothing is sent to a client that never asked");
            clear();
            if (symRange("wait", 0, 1)) { sleepMs(3500); step(b); clear(); }
        }
        // the broker still serves
        ready("w9", "/nine");
        step(b);
        clear();
        put({ "c9", C, cmd(Command::Get), "/nine", "7", "/nine" });
        step(b);
        int n = 0;
        for (int i = 0; i < outN(router()); i++) n += out(router(), i).src == "w9" && out(router(), i).srv == "c9";
        CHECKM(n == 1, "the broker goes on to serve others");
        b.cleanup();
    }
    CHECKM(!zmqstub::misuse && zmqstub::live == 0, "everything is released");
    REACH("done");
}
// one worker, one request at a time -- also after it announced itself twice, or sent partial replies
HARNESS(h_broker_once) {
    Broker<> b("/Broker");
    ready("w1");
    step(b);
    if (symRange("twice", 0, 1)) { ready("w1"); step(b); }
    clear();
    for (int i = 0; i < 3; i++) put({ "c1", C, cmd(Command::Get), "/svc", std::string(1, (char) ('0' + i)), "/svc" });
    step(b);
    CHECKM(outN(router()) == 1 && out(router(), 0).req == "0", "a worker gets one request until it has answered");
    clear();
    const int partials = symRange("partials", 0, 2);
    for (int i = 0; i < partials; i++) {
        Msg p{ "w1", W, cmd(Command::Partial), "c1", "0", "/svc", symString("d", 1) };
        put(p);
        step(b);
        p.src = "c1"; p.prot = C; p.srv = "/svc";
        CHECKM(outN(router()) == 1 && is(out(router(), 0), p), "a partial reply is passed on, the worker stays busy");
        clear();
    }
    put({ "w1", W, cmd(Command::Final), "c1", "0", "/svc" });
    step(b);
    CHECKM(outN(router()) == 2 && out(router(), 1).src == "w1" && out(router(), 1).req == "1", "after its final reply it gets the next one");
    REACH("done");
}
// a worker whose client has gone is not lost; a silent worker gets no request; a silent client is forgotten
HARNESS(h_broker_expire) {
    Broker<> b("/Broker");
    ready("w1");
    put({ "c1", C, cmd(Command::Get), "/svc", "0", "/svc" });
    step(b);
    clear();
    const uint64_t pause = symRange("pause", 0, 4) * 2600;
    for (uint64_t t = 0; t < pause; t += 1300) { sleepMs(1300); put({ "w1", W, cmd(Command::Heartbeat), "/svc" }); step(b); }
    clear();
    put({ "w1", W, cmd(Command::Final), "c1", "0", "/svc", "reply" });
    step(b);
    int n = 0;
    for (int i = 0; i < outN(router()); i++) n += out(router(), i).src == "c1";
    CHECKM(n == (pause <= 10000 ? 1 : 0), "the reply reaches a client that asked within the client timeout");
    clear();
    const uint64_t quiet = symLazy("quiet", 0, 8000, 16);
    const bool     alive = quiet <= 3000;
    sleepMs(quiet);
    put({ "c2", C, cmd(Command::Get), "/svc", "1", "/svc" });
    step(b);
    n = 0;
    for (int i = 0; i < outN(router()); i++) n += out(router(), i).src == "w1" && out(router(), i).srv == "c2";
    if (symx_branch(alive)) { CHECKM(n == 1, "a worker that answered serves the next request, even if the client of the last one has gone"); REACH("alive"); }
    else { CHECKM(n == 0, "a worker that was silent for longer than its liveness gets no request"); REACH("silent"); }
    if (!alive) {
        clear();
        ready("w2");
        step(b);
        n = 0;
        for (int i = 0; i < outN(router()); i++) n += out(router(), i).src == "w2" && out(router(), i).srv == "c2";
        CHECKM(n == 1, "the request waits for the next worker");
    }
}
// unknown workers are told to reconnect
HARNESS(h_broker_stranger) {
    Broker<> b("/Broker");
    const Command cs[] = { Command::Final, Command::Partial, Command::Heartbeat };
    put({ "w7", W, cmd(cs[symRange("cmd", 0, 2)]), symRange("srv", 0, 1) ? "/svc" : "c1", "1", "/svc", symString("d", 1) });
    step(b);
    CHECKM(outN(router()) == 1, "a worker the broker does not know gets one answer");
    Msg m = out(router(), 0);
    CHECKM(m.src == "w7" && m.prot == W && m.cmd == cmd(Command::Disconnect), "which disconnects it");
    clear();
    ready("w7");
    put({ "c1", C, cmd(Command::Get), "/svc", "0", "/svc" });
    step(b);
    CHECKM(outN(router()) == 1 && out(router(), 0).src == "w7", "once it is ready it is served like any other");
    clear();
    b.cleanup();
    CHECKM(outN(router()) == 1 && out(router(), 0).src == "w7" && out(router(), 0).cmd == cmd(Command::Disconnect) && out(router(), 0).data == "broker shutdown", "on shutdown every worker is disconnected");
    REACH("done");
}
// the service that is asked for, not one whose name is a prefix of its name
HARNESS(h_broker_match) {
    Broker<> b("/Broker");
    const std::string names[] = { "/a", "/ab", "/a/b", "/mmi.echoes", "/c" };
    const int         x = symRange("x", 0, 4), y = symRange("y", 0, 4);
    ASSUME(x != y);
    ready("w1", names[x]);
    ready("w2", names[y]);
    step(b);
    clear();
    const bool second = symRange("ask", 0, 1);
    put({ "c1", C, cmd(Command::Get), names[second ? y : x], "0", "/svc", symString("d", 1) });
    step(b);
    CHECKM(outN(router()) == 1 && out(router(), 0).src == (second ? "w2" : "w1"), "a request goes to the service it names");
    clear();
    put({ "c1", C, cmd(Command::Get), names[x] + "/sub", "0", "/svc" });
    step(b);
    CHECKM(outN(router()) <= 1, "a request goes to one service");
    REACH("done");
}
// the management interface
HARNESS(h_broker_mmi) {
    Broker<> b("/Broker");
    put({ "w1", W, cmd(Command::Ready), "/svc", "", "/", "the description" });
    step(b);
    clear();
    Msg q{ "c1", C, cmd(Command::Get), "", symString("req", 2), "/mmi.x?a=1", "", "", "token" };
    const int k = symRange("ask", 0, 5);
    const char *srv[] = { "/mmi.service", "/mmi.service", "/mmi.service", "/mmi.openapi", "/mmi.openapi", "/mmi.echo" };
    std::string echo = symString("echo", 2);
    q.srv  = srv[k];
    q.data = k == 0 || k == 3 ? "/svc" : k == 1 || k == 4 ? "/none" : k == 2 ? std::string() : echo;
    put(q);
    step(b);
    CHECKM(outN(router()) == 1 && outN(pub()) == 0, "a question to the broker is answered once");
    Msg m = out(router(), 0);
    CHECKM(m.src == "c1" && m.prot == C && m.srv == q.srv && same(m.req, q.req) && m.topic == q.topic, "to the client that asked, with its request id and topic");
    switch (k) {
    case 0: CHECKM(m.data == "200" && m.err.empty(), "mmi.service: 200 for a registered service"); break;
    case 1: CHECKM(m.data == "404", "mmi.service: 404 for any other"); break;
    case 2: CHECKM(m.data == "/mmi.dns,/mmi.echo,/mmi.openapi,/mmi.service,/svc", "mmi.service without argument lists the services in order"); break;
    case 3: CHECKM(m.data == "the description" && m.err.empty(), "mmi.openapi: the description the worker gave"); break;
    case 4: CHECKM(m.data.empty() && !m.err.empty(), "mmi.openapi: an error for an unknown service"); break;
    default: CHECKM(same(m.data, q.data), "mmi.echo: the same data");
    }
    REACH("done");
}
// HTTP clients
HARNESS(h_broker_rest) {
    namespace R = opencmw::majordomo::detail::rest;
    {
        Broker<> b("/Broker");
        CHECKM(bool(b.bindRest({})), "REST is set up");
        ready("w1");
        step(b);
        clear();
        R::RestMessage q;
        const bool     set = symRange("set", 0, 1), known = symRange("known", 0, 1);
        std::string    data = symString("data", 2), req = symString("req", 2);
        q.command         = set ? Command::Set : Command::Get;
        q.serviceName     = known ? "/svc" : "/none";
        q.clientRequestID = IoBuffer(req.data(), req.size());
        q.data            = IoBuffer(data.data(), data.size());
        q.topic           = mdp::Message::URI("/svc?a=1");
        R::s_requests.push_back(q);
        R::RestMessage s;
        s.command = Command::Subscribe;
        s.topic   = mdp::Message::URI("/svc?a=1");
        R::s_requests.push_back(s);
        step(b);
        if (!known) {
            CHECKM(outN(router()) == 0 && R::s_responses.size() == 1 && !R::s_responses[0].error.empty() && same(R::s_responses[0].clientRequestID.asString(), req), "an HTTP request for an unknown service is answered with an error");
            REACH("unknown");
        } else {
            CHECKM(outN(router()) == 1, "an HTTP request is forwarded once");
            Msg m = out(router(), 0);
            CHECKM(m.src == "w1" && m.cmd == cmd(set ? Command::Set : Command::Get) && same(m.data, data) && same(m.req, req) && m.topic == "/svc?a=1", "unchanged");
            clear();
            Msg r{ "w1", W, cmd(Command::Final), m.srv, m.req, "/svc", symString("rdata", 2), symString("rerr", 1) };
            put(r);
            step(b);
            CHECKM(R::s_responses.size() == 1 && outN(router()) == 0, "its reply is handed to the REST server, once");
            CHECKM(same(R::s_responses[0].data.asString(), r.data) && same(R::s_responses[0].error, r.err) && same(R::s_responses[0].clientRequestID.asString(), req) && R::s_responses[0].serviceName == "/svc", "unchanged, with the id of the request");
            REACH("known");
        }
        clear();
        const bool hit = symRange("matching", 0, 1);
        put({ "w1", W, cmd(Command::Notify), "/svc", "5", hit ? "/svc?a=1" : "/other", data });
        step(b);
        CHECKM(R::s_notifications.size() == (hit ? 1u : 0u) && (!hit || same(R::s_notifications[0].data.asString(), data)) && outN(router()) == 0, "a notification of a topic an HTTP client subscribed to is handed to the REST server");
    }
    R::s_requests.clear(); R::s_responses.clear(); R::s_notifications.clear();
    CHECKM(zmqstub::live == 0, "everything is released");
}
// name service: any question is answered
#ifndef DN
#define DN 2
#endif
HARNESS(h_broker_dns_any) {
    Broker<> b("/Broker");
    put({ "b2", C, cmd(Command::Ready), "/Other", "clientID", "mdp://h2:1/srv" });
    step(b);
    clear();
    std::string q = (symRange("prefix", 0, 1) ? "mdp:," : "") + symString("q", symRange("n", 0, DN));
    put({ "c1", C, cmd(Command::Get), "/mmi.dns", "1", "/mmi.dns", q });
    step(b);
    CHECKM(outN(router()) == 1 && out(router(), 0).src == "c1" && out(router(), 0).cmd == cmd(Command::Final), "whatever the name service is asked, it answers the client once");
    REACH("done");
}
// registered addresses are found by scheme and path, until they expire
HARNESS(h_broker_dns) {
    Broker<> b("/Broker");
    std::string p = symString("path", 1);
    ASSUME(p[0] >= 'a' && p[0] <= 'c');
    const bool mds = symRange("mds", 0, 1);
    const std::string uri = std::string(mds ? "mds" : "mdp") + "://h2:1/" + p + "x";
    put({ "b2", C, cmd(Command::Ready), "/Other", "clientID", uri });
    step(b);
    const int k = symRange("ask", 0, 5);
    const char *asks[] = { "mdp:/ax", "mds:/ax", "/ax", "/a", "MDP:/ax", "" };
    const uint64_t pauses[] = { 0, 9000, 18000, 27000, 45000 }, pause = pauses[symRange("pause", 0, 4)];
    for (uint64_t t = 0; t < pause; t += 1000) { sleepMs(1000); step(b); }
    const bool refresh = pause == 27000 && symRange("refresh", 0, 1);
    if (refresh) { put({ "b2", C, cmd(Command::Ready), "/Other", "clientID", uri }); step(b); for (int i = 0; i < 20; i++) { sleepMs(1000); step(b); } }
    clear();
    put({ "c1", C, cmd(Command::Get), "/mmi.dns", "1", "/mmi.dns", asks[k] });
    step(b);
    int at = -1;
    for (int i = 0; i < outN(router()); i++) if (out(router(), i).src == "c1") { CHECKM(at < 0, "one answer"); at = i; }
    CHECKM(at >= 0, "the question is answered");
    const std::string d = out(router(), at).data;
    const bool alive = pause <= 27000;
    if (k == 5) {
        CHECKM(same(d, alive ? "[/Other: " + uri + "]" : std::string()), "without a question all registered brokers are listed");
    } else {
        const bool match = alive && symx_branch(p[0] == 'a') && (k == 2 || k == 3 || (k == 1 ? mds : !mds));
        CHECKM(same(d, std::string("[") + asks[k] + ": " + (match ? uri : "null") + "]"), "an address is found by its scheme (in any case) and the beginning of its path, until it was not refreshed for dnsTimeout times heartbeatLiveness (and one dnsTimeout more at most)");
        if (match) REACH("found"); else REACH("null");
    }
    if (refresh) REACH("refreshed");
}
// addresses the broker listens to
HARNESS(h_broker_bind) {
    Broker<> b("/Broker");
    const char *in[] = { "mdp://h:1", "mds://h:1", "tcp://h:1", "tcp://h:1", "inproc://h" };
    const char *ex[] = { "mdp://h:1", "mds://h:1", "mdp://h:1", "mds://h:1", "inproc://h" };
    const int   k = symRange("k", 0, 4);
    auto        r = b.bind(URI<>(in[k]), k == 2 || k == 4 ? BindOption::Router : k == 3 ? BindOption::Pub : BindOption::DetectFromURI);
    CHECKM(r.has_value() && r->str() == ex[k], "bind() returns the public address");
    ready("w1");
    step(b);
    clear();
    put({ "c1", C, cmd(Command::Get), "/mmi.dns", symString("r", 1), "/mmi.dns", std::string(ex[k]).substr(0, 3) == "inp" ? "inproc:/svc" : std::string(ex[k]).substr(0, 3) + ":/svc" });
    step(b);
    const std::string d = out(router(), 0).data;
    CHECKM(d.find(std::string(ex[k]) + "/svc") != std::string::npos, "and the name service knows the services there");
    REACH("done");
}
