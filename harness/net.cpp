// Instantiates the network layer through its public interface only (never executed).
#include <HXLibs/net/ApiMacro.hpp>
#include <HXLibs/net/client/HttpClientPool.hpp>
#include <HXLibs/net/token/Token.hpp>
#include <HXLibs/net/protocol/proxy/HttpProxy.hpp>
#include <HXLibs/net/protocol/proxy/Socks5Proxy.hpp>
#include <HXLibs/net/protocol/codec/Base64.hpp>
#include <HXLibs/net/protocol/codec/Base64Url.hpp>
#include <HXLibs/net/protocol/codec/SHA1.hpp>
#include <HXLibs/coroutine/task/RootTask.hpp>
#include <HXLibs/utils/FileUtils.hpp>
#include <list>
using namespace HX;
using namespace HX::net;
using namespace HX::utils;

template class HX::net::HttpRequest<HttpIO>;
template class HX::net::HttpResponse<HttpIO>;
template class HX::net::Router<HttpIO>;
template class HX::net::RouterTree<HttpIO>;
template class HX::net::Router<HttpsIO>;
template class HX::net::HttpRequest<HttpsIO>;
template class HX::net::HttpResponse<HttpsIO>;
template class HX::net::HttpBaseClient<NoneProxy, HttpIO>;
template class HX::net::HttpBaseClient<HttpProxy, HttpIO>;
template class HX::net::HttpBaseClient<NoneProxy, HttpsIO>;

struct HTok { std::string id; int v; };

struct HSync {
    bool before(HttpRequest<HttpIO>&, HttpResponse<HttpIO>&) { return true; }
    bool after(HttpRequest<HttpIO>&, HttpResponse<HttpIO>&) { return true; }
};
struct HCo {
    coroutine::Task<bool> before(HttpRequest<HttpIO>&, HttpResponse<HttpIO>&) { co_return true; }
    coroutine::Task<bool> after(HttpRequest<HttpIO>&, HttpResponse<HttpIO>&) { co_return true; }
};
struct HBef { int before(HttpRequest<HttpIO>&, HttpResponse<HttpIO>&) { return 1; } };
struct HAft { coroutine::Task<int> after(HttpRequest<HttpIO>&, HttpResponse<HttpIO>&) { co_return 1; } };
HX_CONTROLLER(HCtl) {
    HX_ENDPOINT_MAIN() {
        addEndpoint<GET>("/ctl", [=] ENDPOINT { co_await res.setStatusAndContent(Status::CODE_200, "x").sendRes(); }, HSync{}, HCo{});
    }
};

void h_server() {
    HttpServer server{1};
    server.addController<HCtl>();
    auto f = [] ENDPOINT {
        [[maybe_unused]] auto a = req.getPathParam(0);
        (void)req.getPathParam(0).template to<int>();
        (void)req.getPathParam(0).template to<long>();
        (void)req.getPathParam(0).template to<unsigned>();
        (void)req.getPathParam(0).template to<double>();
        (void)req.getPathParam(0).template to<float>();
        (void)req.getPathParam(0).template to<bool>();
        (void)req.getPathParam(0).template to<std::string>();
        (void)req.getPathParam(0).template to<std::string_view>();
        (void)req.getUniversalWildcardPath();
        (void)req.getParseQueryParameters();
        (void)req.getReqType(); (void)req.getReqPath(); (void)req.getPureReqPath(); (void)req.getProtocolVersion();
        (void)req.getRangeRequestView(); (void)req.getHeaders();
        (void)co_await req.parseBody();
        co_await req.saveToFile("x");
        co_await res.setStatusAndContent(Status::CODE_200, "x").sendRes();
        co_await res.setStatusAndContent(Status::CODE_200, std::string{"x"}).sendRes();
        co_await res.useChunkedEncodingTransferFile("x");
        co_await res.useRangeTransferFile(req.getRangeRequestView(), "x");
        co_return;
    };
    server.addEndpoint<GET, POST>("/a", f, HSync{}, HCo{});
    server.addEndpoint<GET>("/a/{id}", f);
    server.addEndpoint<GET>("/b/{id}/**", f, HSync{}, HBef{}, HCo{}, HAft{});
    server.addEndpoint<GET>("/a/{id}/**", f, HCo{}, HSync{});
    server.addEndpoint<WS>("/ws", [] ENDPOINT {
        auto ws = co_await WebSocketFactory{req, res}.accept();
        co_await ws.sendText("x"); (void)co_await ws.recvText();
        co_await ws.sendBytes("x"); (void)co_await ws.recvBytes();
        co_await ws.ping(); co_await ws.close();
        std::string j; HTok t;
        co_await ws.sendJson(t); (void)co_await ws.recvJson(t); (void)co_await ws.recvJson<HTok>();
        co_await ws.send(OpCode::Text); co_await ws.sendPacketView(makePacketView(OpCode::Text, "x"));
    });
    server.asyncRun(1, []{}, decltype(5_s){});
    server.syncRun(1, []{}, decltype(5_s){});
    server.syncStop(); server.asyncStop();
}
void h_router(Router<HttpIO>& r, HttpRequest<HttpIO>& q, HttpResponse<HttpIO>& p) {
    r.setErrorEndpointFunc([](HttpRequest<HttpIO>&, HttpResponse<HttpIO>&) -> coroutine::Task<> { co_return; }, HSync{}, HBef{}, HCo{}, HAft{});
    (void)r.getEndpoint("GET", "/")(q, p);
}
void h_server_opt() {
    HttpsServer s2{2};
    s2.addEndpoint<GET>("/a", [](HttpRequest<HttpsIO>& req, HttpResponse<HttpsIO>& res) -> coroutine::Task<> {
        co_await res.setStatusAndContent(Status::CODE_200, "x").sendRes();
        (void)req; co_return; });
    s2.asyncRun(1, []{}, decltype(5_s){});
    s2.syncRun(1, []{}, decltype(5_s){});
    s2.syncStop(); s2.asyncStop();
}
coroutine::Task<int> h_ws(WebSocketClient<HttpIO> ws) { co_await ws.sendText("x"); co_await ws.sendBytes("x"); co_await ws.ping(); HTok t; co_await ws.sendJson(t); co_await ws.recvJson(t); (void)co_await ws.recvText(); (void)co_await ws.recvBytes(); co_await ws.close(); co_return 1; }
coroutine::Task<> h_wsv(WebSocketClient<HttpsIO> ws) { co_await ws.sendText("x"); co_return; }
coroutine::Task<> h_sse(SseEvent) { co_return; }
template <class C> coroutine::Task<> h_client(C& c) {
    (void)c.get("u").get(); (void)c.post("u", "b", HttpContentType::None);
    (void)co_await c.coGet("u"); (void)co_await c.coPost("u", "b", HttpContentType::None);
    (void)c.template uploadChunked<POST>("u", "p"); (void)co_await c.template coUploadChunked<POST>("u", "p");
    (void)c.template request<PUT>("u"); (void)co_await c.template coRequest<PUT>("u");
    (void)co_await c.coConnect("u"); (void)c.connect("u");
    (void)co_await c.template coSseLoop<GET>("u", h_sse);
    c.close(); co_await c.coClose();
}
void h_clients() {
    HttpClient c; (void)h_client(c); auto wsf = [](WebSocketClient<HttpIO> ws) -> coroutine::Task<int> { return h_ws(std::move(ws)); }; (void)c.wsLoop("u", [](WebSocketClient<HttpIO> ws) -> coroutine::Task<int> { return h_ws(std::move(ws)); }); (void)c.coWsLoop("u", wsf);
    HttpClient<HttpProxy> c2{HttpClientOptions<HttpProxy>{}}; (void)h_client(c2);
    HttpClient<Socks5Proxy> c4{HttpClientOptions<Socks5Proxy>{}}; (void)h_client(c4);
    HttpsClient c3{HttpClientOptions{}}; HttpsClient<Socks5Proxy> c5{HttpClientOptions<Socks5Proxy>{}}; (void)h_client(c5); (void)h_client(c3); (void)c3.wsLoop("u", [](WebSocketClient<HttpsIO> ws) -> coroutine::Task<> { return h_wsv(std::move(ws)); }); auto wsf3 = [](WebSocketClient<HttpsIO> ws) -> coroutine::Task<> { return h_wsv(std::move(ws)); }; (void)c3.coWsLoop("u", wsf3);
    HttpsClient<NoneProxy>::initSsl({});
    HttpClientPool p{2}; (void)p.get("u"); (void)p.post("u", "b", HttpContentType::None); (void)p.uploadChunked<POST>("u", "p"); p.resize(3); (void)p.wsLoop("u", [](WebSocketClient<HttpIO> ws) -> coroutine::Task<int> { return h_ws(std::move(ws)); });
    c.get("u").thenTry([](container::Try<ResponseData> t) { return t; }).thenTry([](auto t) { (void)t; }).wait();
    c.get("u").thenTry([](container::Try<ResponseData>) { return 1; }).get();
}
coroutine::Task<> h_file(coroutine::EventLoop& loop, HttpIO& io) {
    AsyncFile f{io}; AsyncFile g{loop};
    co_await f.open("x", OpenMode::Write); std::vector<char> buf; co_await f.write(buf); co_await f.write(std::string_view{"x"});
    (void)co_await f.read(buf); (void)co_await f.readAll(); f.setOffset(1); co_await f.close();
    (void)FileUtils::getFileSize("x"); (void)FileUtils::getExtension("x"); (void)FileUtils::getFileContent("x"); (void)FileUtils::putFileContent("x", "y");
    co_await io.sendLinkTimeout<decltype(5_s)>(std::string_view{"x"});
    char b[8]; std::span<char> sp{b};
    (void)co_await io.recvLinkTimeout<decltype(5_s)>(sp); co_await io.fullySend(std::string_view{"x"}); (void)co_await io.recv(sp); co_await io.fullyRecv(sp);
    (void)co_await io.recvStruct<uint16_t>(); (void)co_await io.recv(sp, 3); co_await io.fullySend(std::string_view{"x"}, 1); co_await io.bindNewFd(3); co_await io.close();
}
coroutine::Task<> h_tls(HttpsIO& io) {
    char b[8]; std::span<char> sp{b};
    co_await io.sendLinkTimeout<decltype(5_s)>(std::string_view{"x"});
    (void)co_await io.recvLinkTimeout<decltype(5_s)>(sp); co_await io.fullySend(std::string_view{"x"}); (void)co_await io.recv(sp); co_await io.fullyRecv(sp);
    co_await io.close(); (void)co_await io.recvStruct<uint16_t>(); (void)co_await io.recv(sp, 3); co_await io.fullySend(std::string_view{"x"}, 1);
}
void h_token() {
    auto& api = token::TokenApi::get();
    HTok t; auto s = api.toToken(t); api.fromToken(t, s);
    std::vector<uint8_t> v; (void)base64Encode(v); (void)base64UrlEncode(std::string{}); (void)base64UrlEncode(v); (void)base64UrlDecode(s);
}
