// a live thread that runs the given steps one at a time: histories over several threads, in any interleaving of whole operations
#pragma once
#include <condition_variable>
#include <functional>
#include <memory>
#include <mutex>
#include <thread>
struct Actor {
    std::mutex m; std::condition_variable cv; std::function<void()> job; bool busy = false, quit = false; std::thread t;
    Actor() : t([this] { std::unique_lock<std::mutex> l(m); for (;;) { cv.wait(l, [this] { return busy || quit; }); if (busy) { job(); busy = false; cv.notify_all(); } else return; } }) {}
    void run(std::function<void()> f) { std::unique_lock<std::mutex> l(m); job = std::move(f); busy = true; cv.notify_all(); cv.wait(l, [this] { return !busy; }); }
    ~Actor() { { std::lock_guard<std::mutex> l(m); quit = true; } cv.notify_all(); t.join(); }
};
