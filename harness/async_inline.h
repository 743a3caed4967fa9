// std::async tasks run when they are waited for (the code under test only starts them to wait for them at once)
#pragma once
#include <future>
#define async(...) async(std::launch::deferred, __VA_ARGS__)
