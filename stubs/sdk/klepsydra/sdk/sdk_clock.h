// Stand-in for the Klepsydra SDK (not part of /repo, absent here), written from its uses in /repo and its tests.
#pragma once
namespace kpsr {
inline unsigned long long sdkClock = 1; // set by the harness; time stands still in between
}
