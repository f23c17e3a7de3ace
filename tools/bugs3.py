D = "src/disruptor/include/disruptor/"
DI = dict(stubs=True, incl=["src/core/include", "src/disruptor/include"])
BUGS = {
"ring-throw-skips": ("P25", dict(DI, edits=[[D + "RingBuffer.hpp", "                _sequence->setValue(processedSequence);\n                std::rethrow_exception", "                _sequence->setValue(nextSequence);\n                std::rethrow_exception"]],
  needs="an event handler that throws", what="the event a handler failed at is never delivered again",
  demo='#include <disruptor/RingBuffer.hpp>\nusing namespace opencmw::disruptor;\nint main(){ auto r=newRingBuffer<int,4,BusySpinWaitStrategy,ProducerType::Single>(); auto p=r->newPoller(); r->addGatingSequences({p->sequence()}); for(int i=0;i<3;i++) r->tryPublishEvent([&](int &&e,std::int64_t){ e=i; }); int n=0; try { p->poll([&](int &e,std::int64_t,bool){ if(e==1) throw 1; n++; return true; }); } catch(int){} int first=-1; p->poll([&](int &e,std::int64_t,bool){ if(first<0) first=e; return true; }); return first==1 ? 0 : 1; }\n')),
"ring-trynext-hoist": ("P26", dict(DI, edits=[[D + "ClaimStrategy.hpp", """        do {
            current = _cursor.value();
            next    = current + n_slots_to_claim;

            if (!hasAvailableCapacity(dependents, n_slots_to_claim, current)) {
                throw NoCapacityException();
            }
        } while (!_cursor.compareAndSet(current, next));""", """        current = _cursor.value();
        if (!hasAvailableCapacity(dependents, n_slots_to_claim, current)) {
            throw NoCapacityException();
        }
        do {
            current = _cursor.value();
            next    = current + n_slots_to_claim;
        } while (!_cursor.compareAndSet(current, next));"""]],
  needs="two producers claiming at the same time with one slot left", what="after losing the race for a slot a producer claims the next one without looking whether it is free",
  demo='#include <disruptor/RingBuffer.hpp>\n#include <thread>\nusing namespace opencmw::disruptor;\nint main(){ auto r=newRingBuffer<long,2,BusySpinWaitStrategy,ProducerType::Multi>(); auto p=r->newPoller(); r->addGatingSequences({p->sequence()}); std::atomic<bool> stop{false}; std::atomic<long> bad{0}; auto f=[&]{ while(!stop){ r->tryPublishEvent([](long &&e,std::int64_t s){ e=s; }); if(r->getRemainingCapacity()<0) bad++; } }; std::thread a(f), b(f), c(f); auto t0=std::chrono::steady_clock::now(); long exp=0; while(std::chrono::steady_clock::now()-t0<std::chrono::seconds(5) && !bad) p->poll([&](long &e,std::int64_t s,bool){ if(s!=exp++ || e!=s) bad++; return true; }); stop=true; a.join(); b.join(); c.join(); return bad ? 1 : 0; }\n')),
"seq-store-relaxed": ("P26", dict(DI, flags="-fsanitize=thread", edits=[[D + "Sequence.hpp", "std::atomic_store_explicit(&_fieldsValue, value, std::memory_order_release);", "std::atomic_store_explicit(&_fieldsValue, value, std::memory_order_relaxed);"]],
  needs="a consumer reading an event right after its publication (on weakly ordered memory, or under a race detector)", what="the publication of a sequence no longer publishes the event's data",
  demo='#include <disruptor/RingBuffer.hpp>\n#include <thread>\nusing namespace opencmw::disruptor;\nint main(){ auto r=newRingBuffer<long,4,BusySpinWaitStrategy,ProducerType::Single>(); auto p=r->newPoller(); r->addGatingSequences({p->sequence()}); std::thread t([&]{ for(int i=0;i<2000;){ if(r->tryPublishEvent([&](long &&e,std::int64_t){ e=i; })) i++; } }); int n=0; while(n<2000) p->poll([&](long &e,std::int64_t,bool){ n+=e>=0; return true; }); t.join(); return 0; }\n')),
"wait-notify-one": ("P27", dict(DI, edits=[[D + "WaitStrategy.hpp", """        return availableSequence;
    }

    void signalAllWhenBlocking() {
        std::unique_lock uniqueLock(_gate);
        _conditionVariable.notify_all();
    }
};
static_assert(WaitStrategy<BlockingWaitStrategy>);""", """        return availableSequence;
    }

    void signalAllWhenBlocking() {
        std::unique_lock uniqueLock(_gate);
        _conditionVariable.notify_one();
    }
};
static_assert(WaitStrategy<BlockingWaitStrategy>);"""]],
  needs="two consumers blocked at the same time", what="publication wakes only one of several blocked consumers",
  demo='#include <disruptor/RingBuffer.hpp>\n#include <disruptor/ProcessingSequenceBarrier.hpp>\n#include <thread>\nusing namespace opencmw::disruptor;\nint main(){ auto r=newRingBuffer<int,4,BlockingWaitStrategy,ProducerType::Single>(); auto b=newBarrier(r,{}); std::atomic<int> n{0}; auto f=[&]{ b->waitFor(0); n++; }; std::thread x(f), y(f); std::this_thread::sleep_for(std::chrono::milliseconds(500)); r->publish(r->next()); std::this_thread::sleep_for(std::chrono::milliseconds(1500)); int k=n; x.detach(); y.detach(); std::_Exit(k==2 ? 0 : 1); }\n')),
"alert-after-signal": ("P27", dict(DI, edits=[[D + "ProcessingSequenceBarrier.hpp", """        _alerted = true;
        if constexpr (hasSignalAllWhenBlocking<WAIT_STRATEGY>) {
            _waitStrategyRef.signalAllWhenBlocking();
        }
""", """        if constexpr (hasSignalAllWhenBlocking<WAIT_STRATEGY>) {
            _waitStrategyRef.signalAllWhenBlocking();
        }
        _alerted = true;
"""]],
  needs="a blocked consumer that wakes up between the signal and the flag", what="a consumer woken by alert() may find no alert and block again, for ever",
  demo='#include <disruptor/RingBuffer.hpp>\n#include <disruptor/ProcessingSequenceBarrier.hpp>\nusing namespace opencmw::disruptor;\nISequenceBarrier *bar=nullptr; bool seen=false;\nstruct W { std::int64_t waitFor(std::int64_t s,const Sequence&,const std::vector<std::shared_ptr<Sequence>>&,ISequenceBarrier&) const { return s; } void signalAllWhenBlocking(){ if(bar) seen=bar->isAlerted(); } };\nint main(){ auto r=newRingBuffer<int,4,W,ProducerType::Single>(); auto b=newBarrier(r,{}); bar=b.get(); b->alert(); return seen ? 0 : 1; }\n')),
"bq-pop-no-loop": ("P27", dict(DI, edits=[[D + "BlockingQueue.hpp", "        _condition.wait(lock, [this]() { return !_queue.empty(); });\n        T val", "        if (_queue.empty()) {\n            _condition.wait(lock);\n        }\n        T val"]],
  needs="a consumer woken for a value that another consumer took first", what="pop() does not look again after waking up and takes from an empty queue",
  demo='#include <disruptor/BlockingQueue.hpp>\n#include <thread>\n#include <atomic>\nusing namespace opencmw::disruptor;\nstd::atomic<int> bad{0};\nstruct Q : std::deque<int> { int &front(){ static int z; if(empty()){ bad++; return z; } return std::deque<int>::front(); } void pop_front(){ if(!empty()) std::deque<int>::pop_front(); } };\nint main(){ BlockingQueue<int,Q> q; std::atomic<bool> stop{false}; auto f=[&]{ while(!stop) (void) q.pop(); }; std::thread a(f), b(f), c(f), d(f); auto t0=std::chrono::steady_clock::now(); while(std::chrono::steady_clock::now()-t0<std::chrono::seconds(5) && !bad){ q.push(1); for(volatile int i=0;i<300;i=i+1); } stop=true; for(int i=0;i<100;i++) q.push(1); std::this_thread::sleep_for(std::chrono::milliseconds(200)); std::_Exit(bad ? 1 : 0); }\n')),
}
