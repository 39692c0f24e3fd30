// Force-included for resettable_timer.cpp only: apt's abseil (20220623) lacks
// Condition(bool(*)(const T*), T*), which newer abseil has.
#pragma once
#include <absl/base/thread_annotations.h>
#include <absl/synchronization/mutex.h>
#include <absl/time/clock.h>
#include <functional>
#include <thread>
namespace absl
{
struct SecurefsCompatCondition : Condition
{
    template <class T>
    SecurefsCompatCondition(bool (*f)(const T*), T* arg)
        : Condition(f, static_cast<const T*>(arg))
    {
    }
};
}    // namespace absl
#define Condition SecurefsCompatCondition
