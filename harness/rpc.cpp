#include <HXLibs/rpc/RpcClinet.hpp>
#include <HXLibs/rpc/RpcServer.hpp>
using namespace HX;
int addTo(int a, int& b) { return b += a; }
coroutine::Task<std::string> addStr(std::string const& a, std::string& b) { co_return b += a; }
void h() {
    rpc::RpcServer server{9090}; server.bind<addTo>(); server.bind<addStr>();
    rpc::RpcClient cli{net::HttpClientOptions<>{}}; cli.setBaseUrl("x");
    int to; (void)coroutine::EventLoop{}.trySync(cli.call<addTo>(1, to));
    std::string t; (void)coroutine::EventLoop{}.trySync(cli.call<addStr>("1", t));
}
