CORE, SER, MD, DIS, SRV = ["src/%s/include" % x for x in ("core", "serialiser", "majordomo", "disruptor", "services")]
C1 = dict(stubs=True, incl=[CORE])
S1 = dict(stubs=True, incl=[CORE, SER])
BUGS = {
"tctx-stale-pid": ("P13", dict(C1, edits=[["src/core/include/TimingCtx.hpp", "        _pid                                = WILDCARD_VALUE;\n", ""]],
  needs="a context whose selector text is changed to one without P= after it was read", what="the process id of an earlier selector text stays",
  demo='#include <TimingCtx.hpp>\nint main(){ opencmw::TimingCtx c(1,2,3,4); c.selector="FAIR.SELECTOR.C=5"; return c.cid()==5 && c.sid()==-1 && c.pid()==-1 && c.gid()==-1 ? 0 : 1; }\n')),
"topic-slash-once": ("P14", dict(stubs=True, incl=[CORE], edits=[["src/core/include/Topic.hpp", '        while (str.ends_with("/")) {\n', '        if (str.ends_with("/")) {\n']],
  needs="a service name with two or more trailing slashes", what="only one trailing slash is removed, so the topic is refused",
  demo='#include <Topic.hpp>\nint main(){ try { return opencmw::mdp::Topic::fromString("/a//").service()=="/a" ? 0 : 1; } catch(...) { return 1; } }\n')),
"match-missing-flag": ("P15", dict(stubs=True, incl=[CORE, MD], edits=[["src/majordomo/include/majordomo/SubscriptionMatcher.hpp", "                return false;\n", "                return !value.has_value();\n"]],
  needs="a subscription with a filtered parameter without value and a notification that lacks the parameter", what="such a subscriber is sent notifications its filter does not accept",
  demo='#include <majordomo/SubscriptionMatcher.hpp>\n#include <Filters.hpp>\nusing namespace opencmw; int main(){ majordomo::SubscriptionMatcher m; m.addFilter<ContentTypeFilter>("c"); return m(mdp::Topic::fromString("/a"), mdp::Topic::fromString("/a?c")) ? 1 : 0; }\n')),
"rbac-hash-last-comma": ("P16", dict(stubs=True, incl=[CORE, SER, MD], edits=[["src/majordomo/include/majordomo/Rbac.hpp", """    const auto commaPos = token.find(',');
    if (commaPos == std::string_view::npos) {
        return {};
    }

    token.remove_prefix(commaPos + 1);""", """    const auto commaPos = token.rfind(',');
    if (commaPos == std::string_view::npos) {
        return {};
    }

    token.remove_prefix(commaPos + 1);"""]],
  needs="a token whose hash contains a comma", what="hash() yields only the end of the hash",
  demo='#include <majordomo/Rbac.hpp>\nint main(){ return opencmw::majordomo::parse_rbac::hash("RBAC=ADMIN,ab,cd")=="ab,cd" ? 0 : 1; }\n')),
"mime-tolower-z": ("P17", dict(C1, edits=[["src/core/include/MIME.hpp", "return (c >= 'A' && c <= 'Z') ?", "return (c >= 'A' && c < 'Z') ?"]],
  needs="a type or extension with an upper case Z", what="upper case Z is not the same as z: FILE.ZIP is not recognised",
  demo='#include <MIME.hpp>\nint main(){ return opencmw::MIME::getTypeByFileName("A.ZIP")==opencmw::MIME::ZIP ? 0 : 1; }\n')),
"iobuf-copy-resource": ("P18", dict(S1, flags="-fsanitize=address", edits=[["src/serialiser/include/IoBuffer.hpp", "            _allocator.deallocate(_buffer, oldCapacity);\n            _buffer = tBuffer;", "            if (oldCapacity < _capacity) {\n                _allocator.deallocate(_buffer, oldCapacity);\n            }\n            _buffer = tBuffer;"]],
  needs="a buffer with a memory resource of its own that is shrunk", what="shrinking a buffer never releases its old memory",
  demo='#include <IoBuffer.hpp>\n#include <map>\nstruct R : std::pmr::memory_resource { int n=0; void *do_allocate(size_t b,size_t) override { n++; return malloc(b); } void do_deallocate(void *p,size_t,size_t) override { n--; free(p); } bool do_is_equal(const memory_resource &o) const noexcept override { return this==&o; } };\nint main(){ R r; { opencmw::IoBuffer b(64, std::pmr::polymorphic_allocator<uint8_t>(&r)); b.put(1); b.shrink_to_fit(); } return r.n==0 ? 0 : 1; }\n')),
"iobuf-asstring-overflow": ("P18", dict(S1, edits=[["src/serialiser/include/IoBuffer.hpp", "            if (index > _size) {\n                throw std::out_of_range(std::format(\"requested index {} is out-of-range [0,{}]\", index, _size));\n            }\n            if (requestedSize >= 0", "            if (requestedSize < 0 && index > _size) {\n                throw std::out_of_range(std::format(\"requested index {} is out-of-range [0,{}]\", index, _size));\n            }\n            if (requestedSize >= 0"]],
  needs="an index so large that index plus size wraps around", what="asString() yields a view far outside the content instead of throwing",
  demo='#include <IoBuffer.hpp>\nint main(){ opencmw::IoBuffer b; b.put(1); try { (void) b.asString(SIZE_MAX-1, 2); return 1; } catch(const std::out_of_range &) { return 0; } }\n')),
"yas-set-merge": ("P19", dict(S1, edits=[["src/serialiser/include/IoSerialiserYaS.hpp", "        value.clear();\n        std::copy(data.begin()", "        if (data.empty()) {\n            return;\n        }\n        value.clear();\n        std::copy(data.begin()"]],
  needs="an empty set read into an object whose set has elements", what="an empty set does not replace the earlier content",
  demo='#include <IoSerialiserYaS.hpp>\nusing namespace opencmw; struct A { std::set<int> s; }; ENABLE_REFLECTION_FOR(A, s)\nint main(){ A a, b; b.s={1}; IoBuffer u; serialise<YaS>(u,a); deserialise<YaS,ProtocolCheck::LENIENT>(u,b); return b.s.empty() ? 0 : 1; }\n')),
"yas-key-count": ("P20", dict(S1, flags="-fsanitize=address", edits=[["src/serialiser/include/IoSerialiserYaS.hpp", """            if (nElements != nElementsCheck) {
                throw ProtocolException("key array length mismatch""", """            if (nElements > nElementsCheck) {
                throw ProtocolException("key array length mismatch"""], ["src/serialiser/include/IoSerialiserYaS.hpp", """            if (nElements != nElementsCheck) {
                throw ProtocolException("value array length mismatch""", """            if (nElements > nElementsCheck) {
                throw ProtocolException("value array length mismatch"""]],
  needs="a map whose value count is damaged to more than its keys", what="more values than keys are stored, reading keys beyond the end",
  demo='#include <IoSerialiserYaS.hpp>\nusing namespace opencmw; struct A { std::map<int,int> s; }; ENABLE_REFLECTION_FOR(A, s)\nint main(){ A a, b; a.s={{1,0x01010101}}; IoBuffer u; serialise<YaS>(u,a); std::string w((char*)u.data(),u.size()); size_t p=w.find(std::string("\\x01\\x00\\x00\\x00\\x01\\x01\\x01\\x01",8)); u.data()[p]=2; try { deserialise<YaS,ProtocolCheck::LENIENT>(u,b); } catch(const ProtocolException &) { return 0; } return b.s.size()<2 ? 0 : 1; }\n')),
"cmw-bool-array-id": ("P21", dict(S1, edits=[["src/serialiser/include/IoSerialiserCmwLight.hpp", "        else if (typeId == getTypeIdVector<int64_t    >()) { skipArray<int64_t    >(buffer); }", "        else if (typeId == getTypeIdVector<int64_t    >()) { skipArray<int32_t    >(buffer); }"]],
  needs="an unknown field that is a non-empty array of 64 bit integers, followed by others", what="half of the array is left over and read as the next field",
  demo='#include <IoSerialiserCmwLight.hpp>\nusing namespace opencmw; struct A { std::vector<int64_t> x; int y=0; }; struct B { int y=0; }; ENABLE_REFLECTION_FOR(A, x, y) ENABLE_REFLECTION_FOR(B, y)\nint main(){ A a; B b; a.x={7,8}; a.y=5; IoBuffer u; serialise<CmwLight>(u,a); try { deserialise<CmwLight,ProtocolCheck::LENIENT>(u,b); } catch(...) { return 1; } return b.y==5 ? 0 : 1; }\n')),
"json-escape-f": ("P23", dict(S1, edits=[["src/serialiser/include/IoSerialiserJson.hpp", "                result += '\\f';", "                result += '\\v';"]],
  needs="a text with a form feed", what="form feeds are read as vertical tabs",
  demo='#include <IoSerialiserJson.hpp>\nusing namespace opencmw; struct A { std::string s; }; ENABLE_REFLECTION_FOR(A, s)\nint main(){ A a, b; a.s="x\\fy"; IoBuffer u; serialise<Json>(u,a); deserialise<Json,ProtocolCheck::LENIENT>(u,b); return a.s==b.s ? 0 : 1; }\n')),
"json-key-nocheck": ("P24", dict(S1, flags="-fsanitize=address", edits=[["src/serialiser/include/IoSerialiserJson.hpp", "    while (buffer.at<uint8_t>(i) != '\"') {\n        if (buffer.at<uint8_t>(i) == ", "    while (buffer[i] != '\"') {\n        if (buffer[i] == "]],
  needs="a text cut short inside a key", what="the search for the end of the key runs beyond the text",
  demo='#include <IoSerialiserJson.hpp>\nusing namespace opencmw; struct A { int s=0; }; ENABLE_REFLECTION_FOR(A, s)\nint main(){ A a; auto *p=new uint8_t[4]{ \'{\', \'"\', \'a\', \'b\' }; IoBuffer u(p,4); try { deserialise<Json,ProtocolCheck::LENIENT>(u,a); } catch(const std::exception &) {} catch(const ProtocolException &) {} delete[] p; return 0; }\n')),
"batch-throw-repeat": ("P28", dict(stubs=True, incl=[CORE, DIS], edits=[["src/disruptor/include/disruptor/BatchEventProcessor.hpp", "                _sequenceRef.setValue(nextSequence);\n                nextSequence++;", "                nextSequence++;"]],
  needs="a handler that fails at the last available event", what="the event a handler failed at is not passed: its slot stays blocked, and the event is handled again in the next run",
  demo='#include <disruptor/RingBuffer.hpp>\n#include <disruptor/BatchEventProcessor.hpp>\n#include <disruptor/ProcessingSequenceBarrier.hpp>\n#include <thread>\nusing namespace opencmw::disruptor;\nstruct H : IEventHandler<int> { std::atomic<int> n{0}; void onEvent(int &,std::int64_t,bool) override { n++; throw std::runtime_error("x"); } };\nint main(){ auto r=newRingBuffer<int,4,BusySpinWaitStrategy,ProducerType::Single>(); auto b=newBarrier(r,{}); auto h=std::make_shared<H>(); auto p=std::make_shared<BatchEventProcessor<int>>(std::static_pointer_cast<EventStore<int>>(r),b,h); r->publish(r->next()); std::thread t([&]{ p->run(); }); while(h->n==0); std::this_thread::sleep_for(std::chrono::milliseconds(200)); auto s=p->sequence()->value(); p->halt(); t.join(); return s==0 ? 0 : 1; }\n')),
"query-bool-any": ("P29", dict(stubs=True, incl=[CORE, SER], edits=[["src/serialiser/include/QuerySerialiser.hpp", "        v = !maybeStr || *maybeStr == \"true\";", "        v = !maybeStr || maybeStr->starts_with(\"t\");"], ["src/serialiser/include/QuerySerialiser.hpp", "        if (maybeStr && *maybeStr != \"true\" && *maybeStr != \"false\") {", "        if (maybeStr && !maybeStr->starts_with(\"t\") && *maybeStr != \"false\") {"]],
  needs="a flag parameter whose text begins with t but is not 'true'", what="texts that are not a flag set the flag",
  demo='#include <QuerySerialiser.hpp>\nusing namespace opencmw; struct Q { bool f=false; }; ENABLE_REFLECTION_FOR(Q, f)\nint main(){ query::QueryMap m; m["f"]="test"; return query::deserialise<Q>(m).f ? 1 : 0; }\n')),
"dns-filter-rate": ("P30", dict(stubs=True, incl=[CORE, SER, SRV], edits=[["src/services/include/services/dns_types.hpp", "        if (!std::isnan(signal_rate) && signal_rate != entry.signal_rate) return false;", "        if (!std::isnan(signal_rate) && std::abs(signal_rate - entry.signal_rate) > 0.5f) return false;"]],
  needs="a filter with a rate and an entry whose rate is unknown or slightly different", what="entries of unknown rate agree with every rate asked for",
  demo='#include <cmath>\n#include <services/dns_types.hpp>\nusing namespace opencmw::service; int main(){ dns::QueryEntry q; q.signal_rate=5; dns::Entry e; return q==e ? 1 : 0; }\n')),
"ma-eq-prefix": ("P31", dict(S1, edits=[["src/serialiser/include/MultiArray.hpp", "        return dims_ == other.dims_\n            && n_element_ == other.n_element_", "        return n_element_ == other.n_element_"]],
  needs="arrays of the same elements in different dimensions", what="a 2 by 3 matrix equals a 3 by 2 matrix",
  demo='#include <MultiArray.hpp>\nint main(){ using M=opencmw::MultiArray<int,2>; M a({1,2,3,4,5,6},{2,3}), b({1,2,3,4,5,6},{3,2}); return a==b ? 1 : 0; }\n')),
"ma-offset-stride": ("P31", dict(S1, edits=[["src/serialiser/include/MultiArray.hpp", "            index += (offsets_[i] + indices[i]) * strides_[i];", "            index += offsets_[i] + indices[i] * strides_[i];"]],
  needs="a window with an offset in a dimension whose stride is not one", what="the offset is counted in elements instead of rows",
  demo='#include <MultiArray.hpp>\nint main(){ using M=opencmw::MultiArray<int,2>; M a({1,2,3,4,5,6},{3,2}); a.offset(0)=1; return a.index({1,1})==5 ? 0 : 1; }\n')),
"set-busy-ignored": ("P32", dict(stubs=True, incl=[CORE, DIS], edits=[["src/disruptor/include/BasicSetting.hpp", "                current &= ~BUSY_BIT;\n", ""]],
  needs="a reader that gets at the value while the real-time thread is writing it", what="the reader takes the half that is being written",
  demo='#include <array>\n#include <atomic>\n#include <thread>\n#include <chrono>\nstd::atomic<int> in{0};\nstruct V { int a=0,b=0; V &operator=(const V &o){ a=o.a; in=1; for(volatile int i=0;i<2000;i=i+1); b=o.b; return *this; } V()=default; V(const V&)=default; };\n#include <BasicSetting.hpp>\nusing namespace opencmw; int main(){ BasicSetting<V,MutableOption::RealTimeMutable> s; std::atomic<bool> stop{false}; std::thread t([&]{ int i=0; while(!stop){ auto g=s.accessGuard<AccessType::RealTime>(); g->a=++i; g->b=i; } }); int bad=0; auto t0=std::chrono::steady_clock::now(); while(!bad && std::chrono::steady_clock::now()-t0<std::chrono::seconds(5)){ auto g=s.accessGuard<AccessType::NonRealTime>(); int a=g->a; for(volatile int i=0;i<3000;i=i+1); if(g->a!=g->b||a!=g->a) bad=1; } stop=true; t.join(); return bad; }\n')),
"tx-ctx-fallback-sid": ("P33", dict(stubs=True, incl=[CORE, DIS], edits=[["src/disruptor/include/Transactions.hpp", "key.matches(withoutSID) && key.gid() == -1 && key.pid() == -1 && key.sid() == -1", "key.matches(withoutSID) && key.gid() == -1 && key.pid() == -1"]],
  needs="a request for a sequence without setting when another sequence of the same chain has one", what="the setting of another sequence applies",
  demo='#include <Transactions.hpp>\nusing namespace opencmw; int main(){ CtxSetting<int,std::string,16> s; s.commit(TimingCtx(1,1), 7); return *s.get(TimingCtx(1,2)).settingValue.value==0 ? 0 : 1; }\n')),
"tx-expire-latest": ("P33", dict(stubs=True, incl=[CORE, DIS], edits=[["src/disruptor/include/Transactions.hpp", "        (*_ringBuffer)[readIdx].touch();\n", "        if (idx == 0) {\n            (*_ringBuffer)[readIdx].touch();\n        }\n"]],
  needs="an old setting that is read by index and then left to expire", what="settings in use expire",
  demo='#include <Transactions.hpp>\n#include <thread>\nusing namespace opencmw; int main(){ SettingBase<int,int,std::string,16,std::chrono::seconds,1> s; s.commit(1); s.commit(2); std::this_thread::sleep_for(std::chrono::milliseconds(1300)); (void) s.get(-2); s.retireExpired(); return s.nHistory()==3 ? 0 : 1; }\n')),
}
