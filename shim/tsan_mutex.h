// Force-included in the tsan variant: the abseil library that is installed is not instrumented, so ThreadSanitizer has
// to be told what its mutexes order.
#pragma once
#include <absl/synchronization/mutex.h>
#include <absl/synchronization/notification.h>
#include <absl/flags/internal/flag.h>
#include <sanitizer/tsan_interface.h>
// Defined by a harness that wants delays before mutexes are taken.
extern "C" void vp_mutex_delay() __attribute__((weak));
namespace absl
{
class ABSL_LOCKABLE TsanMutex
{
    Mutex m_;

public:
    void Lock() ABSL_EXCLUSIVE_LOCK_FUNCTION()
    {
        if (vp_mutex_delay)
            vp_mutex_delay();
        m_.Lock();
        __tsan_acquire(this);
    }
    void Unlock() ABSL_UNLOCK_FUNCTION()
    {
        __tsan_release(this);
        m_.Unlock();
    }
    bool TryLock() ABSL_EXCLUSIVE_TRYLOCK_FUNCTION(true)
    {
        if (!m_.TryLock())
            return false;
        __tsan_acquire(this);
        return true;
    }
    void ReaderLock() ABSL_SHARED_LOCK_FUNCTION()
    {
        m_.ReaderLock();
        __tsan_acquire(this);
    }
    void ReaderUnlock() ABSL_UNLOCK_FUNCTION()
    {
        __tsan_release(this);
        m_.ReaderUnlock();
    }
    void WriterLock() ABSL_EXCLUSIVE_LOCK_FUNCTION() { Lock(); }
    void WriterUnlock() ABSL_UNLOCK_FUNCTION() { Unlock(); }
    void AssertHeld() const ABSL_ASSERT_EXCLUSIVE_LOCK() { m_.AssertHeld(); }
    void AssertReaderHeld() const ABSL_ASSERT_SHARED_LOCK() { m_.AssertReaderHeld(); }
    void Await(const Condition& c)
    {
        __tsan_release(this);
        m_.Await(c);
        __tsan_acquire(this);
    }
    bool AwaitWithTimeout(const Condition& c, Duration d)
    {
        __tsan_release(this);
        bool r = m_.AwaitWithTimeout(c, d);
        __tsan_acquire(this);
        return r;
    }
    bool AwaitWithDeadline(const Condition& c, Time t)
    {
        __tsan_release(this);
        bool r = m_.AwaitWithDeadline(c, t);
        __tsan_acquire(this);
        return r;
    }
};
class ABSL_SCOPED_LOCKABLE TsanMutexLock
{
    TsanMutex* m_;

public:
    explicit TsanMutexLock(TsanMutex* m) ABSL_EXCLUSIVE_LOCK_FUNCTION(m) : m_(m) { m_->Lock(); }
    ~TsanMutexLock() ABSL_UNLOCK_FUNCTION() { m_->Unlock(); }
    TsanMutexLock(const TsanMutexLock&) = delete;
};
class ABSL_SCOPED_LOCKABLE TsanReaderMutexLock
{
    TsanMutex* m_;

public:
    explicit TsanReaderMutexLock(TsanMutex* m) ABSL_SHARED_LOCK_FUNCTION(m) : m_(m) { m_->ReaderLock(); }
    ~TsanReaderMutexLock() ABSL_UNLOCK_FUNCTION() { m_->ReaderUnlock(); }
    TsanReaderMutexLock(const TsanReaderMutexLock&) = delete;
};
}    // namespace absl
#define Mutex TsanMutex
#define MutexLock TsanMutexLock
#define WriterMutexLock TsanMutexLock
#define ReaderMutexLock TsanReaderMutexLock
