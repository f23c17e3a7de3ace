// Stand-in for the REST server (HTTP/TLS code that is outside these checks): it records what the broker hands to it.
#pragma once
#define OPENCMW_MAJORDOMO_REST_HPP
#define OPENCMW_MAJORDOMO_RESTSERVER_HPP
#include <expected>
#include <functional>
#include <optional>
#include <string>
#include <vector>
#include <IoBuffer.hpp>
#include <MdpMessage.hpp>
#include <Topic.hpp>
#include <zmq/ZmqUtils.hpp>
#ifndef __cpp_lib_expected // clang 18 does not get the one of libstdc++
namespace std {
template<typename E> struct unexpected { E e; explicit unexpected(E x) : e(std::move(x)) {} };
unexpected(const char *) -> unexpected<std::string>;
template<typename T, typename E> struct expected {
    std::optional<T> v; E e{};
    expected() : v(T{}) {}
    expected(T x) : v(std::move(x)) {}
    template<typename G> expected(unexpected<G> u) : e(std::move(u.e)) {}
    explicit operator bool() const { return v.has_value(); }
    T &value() { return *v; }
    E &error() { return e; }
};
template<typename E> struct expected<void, E> {
    bool ok = true; E e{};
    expected() = default;
    template<typename G> expected(unexpected<G> u) : ok(false), e(std::move(u.e)) {}
    explicit operator bool() const { return ok; }
    E &error() { return e; }
};
}
#endif
namespace opencmw::rest::detail { inline void setupIgnoreSigpipe() {} }
namespace opencmw::majordomo::rest {
struct Handler {};
struct Settings {
    std::string certificateFilePath, keyFilePath, certificateFileBuffer, keyFileBuffer;
    std::vector<Handler> handlers;
};
}
namespace opencmw::majordomo::detail::rest {
using RestMessage = mdp::BasicMessage<mdp::MessageFormat::WithSourceId>;
inline std::vector<RestMessage> s_requests;      // what HTTP clients ask next
inline std::vector<RestMessage> s_responses;     // what the broker answered
inline std::vector<RestMessage> s_notifications; // what the broker published
struct RestServer {
    using Made = std::expected<RestServer, std::string>;
    static Made unencrypted() { return RestServer{}; }
    static Made sslWithPaths(std::string, std::string) { return RestServer{}; }
    static Made sslWithBuffers(std::string, std::string) { return RestServer{}; }
    void setHandlers(std::vector<opencmw::majordomo::rest::Handler>) {}
    template<typename S> std::expected<void, std::string> bind(const S &) { return {}; }
    std::vector<RestMessage> processReadWrite(int, bool, bool) { return std::exchange(s_requests, {}); }
    void populatePollerItems(std::vector<zmq_pollitem_t> &items) {
        zmq_pollitem_t i{};
        i.fd = 1; i.events = ZMQ_POLLIN; i.revents = ZMQ_POLLIN;
        items.push_back(i);
    }
    void handleResponse(RestMessage &&m) { s_responses.push_back(std::move(m)); }
    void handleNotification(const mdp::Topic &, RestMessage &&m) { s_notifications.push_back(std::move(m)); }
};
}
