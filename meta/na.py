NA = {
 "T01": dict(title="Timers fire neither early nor much later than asked",
    statement="A coroutine that sleeps for a duration is resumed after at least that duration, and soon after it when the loop is idle. Of several timers, the earlier deadline is served first.",
    over=["schedules"], q="every set of durations, every load of the event loop and the machine",
    why="Tests sleep for a few fixed durations on an idle machine.",
    files=["coroutine/loop/TimerLoop.hpp", "coroutine/loop/EventLoop.hpp"], mech=[("timers", "coroutine/loop/TimerLoop.hpp")],
    reason="It bounds wall-clock delays, which depend on the kernel, the clock and the work of other coroutines; no static argument over the source bounds them. That an expired timer resumes its coroutine exactly once is claimed in C05."),
 "R01": dict(title="Writing a number as JSON and reading it back gives the same number",
    statement="Every finite floating-point and integer value written by the JSON writer is read back as exactly the value written.",
    over=["inputs"], q="every finite value of every arithmetic type",
    why="Tests round-trip a few short decimals.",
    files=["reflection/json/JsonWrite.hpp", "reflection/json/JsonRead.hpp"], mech=[("numbers", "reflection/json/JsonWrite.hpp, reflection/json/JsonRead.hpp")],
    reason="It rests on the shortest-representation and correct-rounding algorithms of the standard library's std::format and from_chars, whose numerical behaviour no dataflow or typestate argument over this repository can establish. How the two are called is claimed in J01 and J02."),
 "L01": dict(title="An idle or overloaded server still answers every client in bounded time",
    statement="With any number of clients, each request that was read is answered within a time bounded by the work requested; no client is starved by others on the same event loop or thread pool.",
    over=["schedules"], q="every number and behaviour of clients, every endpoint",
    why="Tests use one client at a time.",
    files=["net/server/HttpServer.hpp", "container/ThreadPool.hpp"], mech=[("serving", "net/server/ConnectionHandler.hpp"), ("pool", "container/ThreadPool.hpp")],
    reason="Fairness and latency quantify over run-time load and kernel scheduling. The safety side (no lost wake-up, no task dropped, one answer per request) is claimed in C05, C07, C08 and H04."),
}
