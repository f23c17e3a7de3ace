// In-memory stand-in for libzmq (which is not installed here): sockets are a queue of incoming frames and a queue of
// sent frames, both visible to the harness. It follows the documented behaviour of the calls opencmw-cpp uses:
// messages own a buffer that is released through the free function exactly once, zmq_msg_move closes the destination,
// a successful zmq_msg_send takes the content over, ZMQ_RCVMORE is written as int with the rest of the buffer zeroed.
#ifndef VERIF_ZMQ_STUB_H
#define VERIF_ZMQ_STUB_H
#include <cerrno>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>

#define ZMQ_PAIR 0
#define ZMQ_PUB 1
#define ZMQ_SUB 2
#define ZMQ_REQ 3
#define ZMQ_REP 4
#define ZMQ_DEALER 5
#define ZMQ_ROUTER 6
#define ZMQ_PULL 7
#define ZMQ_PUSH 8
#define ZMQ_XPUB 9
#define ZMQ_XSUB 10
#define ZMQ_SUBSCRIBE 6
#define ZMQ_UNSUBSCRIBE 7
#define ZMQ_RCVMORE 13
#define ZMQ_LINGER 17
#define ZMQ_SNDHWM 23
#define ZMQ_RCVHWM 24
#define ZMQ_XPUB_VERBOSE 40
#define ZMQ_HEARTBEAT_IVL 75
#define ZMQ_HEARTBEAT_TTL 76
#define ZMQ_HEARTBEAT_TIMEOUT 77
#define ZMQ_POLLIN 1
#define ZMQ_POLLOUT 2
#define ZMQ_DONTWAIT 1
#define ZMQ_SNDMORE 2

typedef void(zmq_free_fn)(void *data, void *hint);
struct zmq_msg_t {
    void        *data = nullptr;
    size_t       size = 0;
    zmq_free_fn *ffn  = nullptr;
    void        *hint = nullptr;
    int          valid = 0; // 1: initialised
};
struct zmq_pollitem_t {
    void *socket;
    int   fd;
    short events;
    short revents;
};

namespace zmqstub {
constexpr int QCAP = 192; // frames per queue
struct Frame {
    zmq_msg_t msg;
    bool      more = false;
};
struct Opt {
    int    option = 0;
    char   value[32];
    size_t size = 0;
};
struct Socket {
    int   type = 0;
    bool  used = false, more = false, sendMore = false;
    Frame in[QCAP];
    int   inHead = 0, inTail = 0;
    Frame out[QCAP];
    int   outHead = 0, outTail = 0;
    int   eagain = 0; // this many sends answer EAGAIN first
    Opt   opts[16];   // ZMQ_SUBSCRIBE / ZMQ_UNSUBSCRIBE calls only
    int   nOpts = 0;
    bool  inMessage = false;
};
inline Socket sockets[8];
inline int    nSockets = 0, nOpen = 0, nContexts = 0;
inline int    nPolls   = 0;
inline int    live     = 0; // buffers handed over and not yet released
inline bool   misuse   = false; // a call libzmq would refuse or that is undefined
inline bool   keepSent = false; // what was sent stays visible after zmq_close
inline int (*pollHook)(zmq_pollitem_t *, int, long) = nullptr;

inline void release(zmq_msg_t &m) {
    if (m.ffn) { --live; m.ffn(m.data, m.hint); }
    m       = zmq_msg_t{};
    m.valid = 0;
}
inline void freeOwned(void *data, void *) { std::free(data); }
// the harness puts one frame (copied) into a socket's incoming queue
inline void push(Socket &s, const char *data, size_t n, bool more) {
    if (s.inTail >= QCAP) { misuse = true; return; }
    Frame &f = s.in[s.inTail++];
    char  *p = static_cast<char *>(std::malloc(n ? n : 1));
    ++live;
    if (n) std::memcpy(p, data, n);
    f.msg  = zmq_msg_t{ p, n, freeOwned, nullptr, 1 };
    f.more = more;
}
inline int  sent(const Socket &s) { return s.outTail - s.outHead; }
inline const char *outData(const Socket &s, int i) { return static_cast<const char *>(s.out[s.outHead + i].msg.data); }
inline size_t outSize(const Socket &s, int i) { return s.out[s.outHead + i].msg.size; }
inline bool   outMore(const Socket &s, int i) { return s.out[s.outHead + i].more; }
inline void   dropSent(Socket &s) {
    for (; s.outHead < s.outTail; ++s.outHead) release(s.out[s.outHead].msg);
    s.outHead = s.outTail = 0;
}
// moves everything sent on 'from' to the incoming queue of 'to'
inline void deliver(Socket &from, Socket &to) {
    for (; from.outHead < from.outTail; ++from.outHead) {
        if (to.inTail >= QCAP) { misuse = true; return; }
        to.in[to.inTail++]     = from.out[from.outHead];
        from.out[from.outHead] = Frame{};
    }
    from.outHead = from.outTail = 0;
}
} // namespace zmqstub

inline int zmq_msg_init(zmq_msg_t *m) { *m = zmq_msg_t{}; m->valid = 1; return 0; }
inline int zmq_msg_init_data(zmq_msg_t *m, void *data, size_t size, zmq_free_fn *ffn, void *hint) {
    m->data = data; m->size = size; m->ffn = ffn; m->hint = hint; m->valid = 1;
    if (ffn) ++zmqstub::live;
    return 0;
}
inline int zmq_msg_close(zmq_msg_t *m) {
    if (!m->valid) { zmqstub::misuse = true; errno = EFAULT; return -1; }
    zmqstub::release(*m);
    return 0;
}
inline int zmq_msg_move(zmq_msg_t *dest, zmq_msg_t *src) {
    if (!dest->valid || !src->valid) { zmqstub::misuse = true; errno = EFAULT; return -1; }
    if (dest == src) return 0;
    zmqstub::release(*dest);
    *dest = *src;
    zmq_msg_init(src);
    return 0;
}
inline size_t zmq_msg_size(const zmq_msg_t *m) { if (!m->valid) zmqstub::misuse = true; return m->size; }
inline void  *zmq_msg_data(zmq_msg_t *m) { if (!m->valid) zmqstub::misuse = true; return m->data; }
inline int    zmq_msg_send(zmq_msg_t *m, void *socket, int flags) {
    auto *s = static_cast<zmqstub::Socket *>(socket);
    if (!m->valid) { zmqstub::misuse = true; errno = EFAULT; return -1; }
    if (s->eagain > 0) { --s->eagain; errno = EAGAIN; return -1; }
    if (s->outTail >= zmqstub::QCAP) { zmqstub::misuse = true; errno = ENOMEM; return -1; }
    const int n              = static_cast<int>(m->size);
    s->out[s->outTail].msg   = *m;
    s->out[s->outTail].more  = (flags & ZMQ_SNDMORE) != 0;
    ++s->outTail;
    zmq_msg_init(m);
    return n;
}
inline int zmq_msg_recv(zmq_msg_t *m, void *socket, int) {
    auto *s = static_cast<zmqstub::Socket *>(socket);
    if (!m->valid) { zmqstub::misuse = true; errno = EFAULT; return -1; }
    if (s->inHead == s->inTail) { errno = EAGAIN; return -1; }
    zmqstub::release(*m);
    *m      = s->in[s->inHead].msg;
    s->more = s->in[s->inHead].more;
    s->in[s->inHead] = zmqstub::Frame{};
    ++s->inHead;
    if (s->inHead == s->inTail) s->inHead = s->inTail = 0;
    return static_cast<int>(m->size);
}
inline void *zmq_ctx_new() { ++zmqstub::nContexts; return &zmqstub::nContexts; }
inline int   zmq_ctx_term(void *) { --zmqstub::nContexts; return 0; }
inline void *zmq_socket(void *, int type) {
    if (zmqstub::nSockets >= 8) { errno = EMFILE; return nullptr; }
    auto &s = zmqstub::sockets[zmqstub::nSockets++];
    s.type  = type;
    s.used  = true;
    ++zmqstub::nOpen;
    return &s;
}
inline int zmq_close(void *socket) {
    auto *s = static_cast<zmqstub::Socket *>(socket);
    if (!s) { errno = ENOTSOCK; return -1; }
    if (!zmqstub::keepSent) zmqstub::dropSent(*s);
    for (; s->inHead < s->inTail; ++s->inHead) zmqstub::release(s->in[s->inHead].msg);
    s->used = false;
    --zmqstub::nOpen;
    return 0;
}
inline int zmq_bind(void *, const char *) { return 0; }
inline int zmq_unbind(void *, const char *) { return 0; }
inline int zmq_connect(void *, const char *) { return 0; }
inline int zmq_disconnect(void *, const char *) { return 0; }
inline int zmq_setsockopt(void *socket, int option, const void *val, size_t n) {
    auto *s = static_cast<zmqstub::Socket *>(socket);
    if (option == ZMQ_SUBSCRIBE || option == ZMQ_UNSUBSCRIBE) {
        if (s->nOpts >= 16 || n > 32) { zmqstub::misuse = true; errno = EINVAL; return -1; }
        auto &o  = s->opts[s->nOpts++];
        o.option = option;
        o.size   = n;
        if (n) std::memcpy(o.value, val, n);
    }
    return 0;
}
inline int zmq_getsockopt(void *socket, int option, void *val, size_t *n) {
    auto *s = static_cast<zmqstub::Socket *>(socket);
    if (option == ZMQ_RCVMORE) {
        if (*n < sizeof(int)) { errno = EINVAL; return -1; }
        int v = s->more ? 1 : 0;
        std::memset(val, 0, *n);
        std::memcpy(val, &v, sizeof(v));
        *n = sizeof(v);
        return 0;
    }
    errno = EINVAL;
    return -1;
}
inline int zmq_poll(zmq_pollitem_t *items, int n, long timeout) {
    ++zmqstub::nPolls;
    if (zmqstub::pollHook) return zmqstub::pollHook(items, n, timeout);
    int ready = 0;
    for (int i = 0; i < n; ++i) {
        items[i].revents = 0;
        if (!items[i].socket) { items[i].revents = items[i].events; continue; } // a file descriptor is always ready
        auto *s = static_cast<zmqstub::Socket *>(items[i].socket);
        if ((items[i].events & ZMQ_POLLIN) && s->inHead != s->inTail) { items[i].revents = ZMQ_POLLIN; ++ready; }
    }
    return ready;
}
inline const char *zmq_strerror(int) { return "zmq error"; }
#endif
