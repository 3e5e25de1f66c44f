// C43: sensor readings.
#include "kse_rt.h"
#include <chrono>
#include <string>
#include <type_traits>
#include <klepsydra/core/sensor.h>

namespace {
long now() { return (long) std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::system_clock::now().time_since_epoch()).count(); }
std::string text(const char *name, int most)
{
    std::string s((size_t) kse_concretize(kse_pick(most + 1, "length")), 0);
    for (auto &c : s) c = (char) sym_u8(name);
    return s;
}
struct value_t { std::string frame; int seq; long time; };
bool same(const kpsr::Sensor &s, const value_t &v) { return s.frameId == v.frame && s.seq == v.seq && s.timestamp == v.time; }
// a reading of a derived type, as sensors are used
struct reading_t : kpsr::Sensor {
    int data = 0;
    reading_t() {}
    reading_t(const std::string &f, int s, long t, int d) : kpsr::Sensor(f, s, t), data(d) {}
    reading_t(const reading_t &o) : kpsr::Sensor(o), data(o.data) {}
    void clone(const reading_t &o) { kpsr::Sensor::clone(o); data = o.data; }
};
}
//! harness: sensor_copies
//! prop: C43
//! reach: copied assigned cloned itself short long
//! time: 60
//! bounds: two readings with any number and time and any frame of up to 1 (thorough: 2) characters or of 20 more; up to 3 (thorough: 5) copies, assignments, clones and changes of either, in any order
//! outside: other frames
HARNESS(sensor_copies)
{
    value_t v[2];
    reading_t *s[2];
    int d[2];
    for (int i = 0; i < 2; i++) {
        bool big = kse_pick(2, "long");
        v[i] = value_t{text("frame", KSE_THOROUGH ? 2 : 1), (int) sym_u32("seq"), (long) sym_u64("time")};
        if (big) { v[i].frame = "a frame of 20 letter" + v[i].frame; REACH("long"); } else REACH("short");
        d[i] = (int) sym_u32("data");
        s[i] = new reading_t(v[i].frame, v[i].seq, v[i].time, d[i]);
    }
    int steps = KSE_THOROUGH ? 5 : 3;
    for (int n = 0; n < steps; n++) {
        int to = (int) kse_concretize(kse_pick(2, "to")), from = 1 - to;
        switch ((int) kse_concretize(kse_pick(5, "what"))) {
        case 0: { reading_t *c = new reading_t(*s[from]); delete s[to]; s[to] = c; v[to] = v[from]; d[to] = d[from]; REACH("copied"); break; }
        case 1: s[to]->clone(*s[from]); v[to] = v[from]; d[to] = d[from]; REACH("cloned"); break;
        case 2: s[to]->clone(*s[to]); REACH("itself"); break;
        case 3: *static_cast<kpsr::Sensor *>(s[to]) = *s[from]; v[to] = v[from]; REACH("assigned"); break;
        default:
            s[to]->seq = v[to].seq = (int) sym_u32("changed");
            s[to]->timestamp = v[to].time = (long) sym_u64("changed");
            s[to]->frameId = v[to].frame = "changed";
        }
        for (int i = 0; i < 2; i++) CHECK(same(*s[i], v[i]) && s[i]->data == d[i], "a reading has the fields it was made with or copied, and no other changes them");
    }
    for (auto p : s) delete p;
}
//! harness: sensor_made
//! prop: C43
//! reach: empty given
//! time: 60
//! bounds: readings made from any number and any frame of up to 2 characters, or from nothing, in place of anything, at any time
//! outside: other frames
HARNESS(sensor_made)
{
    alignas(kpsr::Sensor) unsigned char place[sizeof(kpsr::Sensor)];
    for (auto &c : place) c = 0xa5; // nothing may be left of what was there
    long before = (long) kse_concretize((uint64_t) now());
    kpsr::Sensor *s;
    std::string frame;
    int seq = 0;
    if (kse_pick(2, "given")) { frame = text("frame", 2); seq = (int) sym_u32("seq"); s = new (place) kpsr::Sensor(frame, seq); REACH("given"); }
    else { s = new (place) kpsr::Sensor(); REACH("empty"); }
    long after = (long) kse_concretize((uint64_t) now());
    CHECK(s->timestamp >= before && s->timestamp <= after, "a reading has the time of its making, in milliseconds");
    CHECK(s->frameId == frame && s->seq == seq, "a reading has the fields it was made with");
    s->~Sensor();
}
