// C15: socket transfers; C16: socket descriptors. The kernel is a stand-in whose answers are unconstrained.
//! src: $R/core/modules/socket_mdlw/src/base_socket.cpp $R/core/modules/socket_mdlw/src/data_socket.cpp $R/core/modules/socket_mdlw/src/connect_socket.cpp $R/core/modules/socket_mdlw/src/server_socket.cpp $R/core/modules/socket_mdlw/src/protocol.cpp $R/core/modules/socket_mdlw/src/protocol_simple.cpp
//! cflags: -I$V/stubs/sock -include cerrno -include stdexcept -include strings.h -include functional
//! assume: the socket calls of the C library are replaced by stand-ins that may answer anything POSIX allows; error texts are replaced by a constant
#include "kse_rt.h"
#include <arpa/inet.h>
#include <cerrno>
#include <cstring>
#include <fcntl.h>
#include <poll.h>
#include <memory>
#include <stdexcept>
#include <string>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>
#include <vector>
#include <klepsydra/socket_core/connect_socket.h>
#include <klepsydra/socket_core/protocol_simple.h>
#include <klepsydra/socket_core/server_socket.h>
using namespace kpsr::socket_mdlw;

namespace {
const int FDS = 6;
struct {
    // descriptors
    int open[1024];           // how often a descriptor is open (0 or 1)
    int opened, closed;
    // stream to be read
    unsigned char in[64]; size_t inLen, inPos;
    // stream written
    unsigned char out[64]; size_t outLen;
    int shut;                 // shutdowns of the writing side
    int shortLeft, tempLeft;  // how many short transfers and temporary failures are left
    bool eof, failed;
    int failure;              // the errno of the failure that ended a transfer
    int fdExpected;
    bool mayFail;
    int selects, accepts, connects, binds, listens;
    int somebody;             // waits that ended with a connection to be accepted
    bool refused;             // a call for a new socket failed
    int next;
} k;
bool isOpen(int fd) { return fd >= 0 && fd < 1024 && k.open[fd]; }
int freshFd(int n = FDS)
{
    int fd = (int) kse_choose(n, "descriptor");
    if (isOpen(fd)) fd = FDS + k.next++;
    k.open[fd] = 1; k.opened++;
    return fd;
}
void reset() { memset(&k, 0, sizeof k); k.next = 1; errno = 0; k.shortLeft = 2; k.tempLeft = 1; k.fdExpected = -2; }
}
extern "C" {
ssize_t __wrap_read(int fd, void *buf, size_t n)
{
    CHECK(isOpen(fd) && (k.fdExpected == -2 || fd == k.fdExpected), "only the socket's own descriptor is read");
    CHECK(!k.eof && !k.failed, "a transfer that ended is over");
    if (n == 0) return 0;
    if (k.tempLeft && kse_choose(2, "temporary failure")) { k.tempLeft--; int e[] = {EINTR, EAGAIN, ETIMEDOUT}; errno = e[kse_choose(3, "errno")]; REACH("retried"); return -1; }
    if (k.mayFail && kse_choose(2, "failure")) { k.failed = true; int e = (int) sym_u8("errno"); ASSUME(e != 0 && e != EINTR && e != EAGAIN && e != ETIMEDOUT); k.failure = errno = e; return -1; }
    size_t left = k.inLen - k.inPos;
    if (left == 0) { return 0; }
    size_t m = n < left ? n : left;
    if (m > 1 && k.shortLeft && kse_choose(2, "short read")) { k.shortLeft--; m = 1 + kse_choose((unsigned) (m - 1 > 5 ? 5 : m - 1), "got"); REACH("short"); }
    for (size_t i = 0; i < m; i++) ((unsigned char *) buf)[i] = k.in[k.inPos++];
    return (ssize_t) m;
}
ssize_t __wrap_write(int fd, const void *buf, size_t n)
{
    CHECK(isOpen(fd) && (k.fdExpected == -2 || fd == k.fdExpected), "only the socket's own descriptor is written");
    CHECK(!k.failed && !k.shut, "nothing is written after a failure or the end of the message");
    if (k.tempLeft && kse_choose(2, "temporary failure")) { k.tempLeft--; errno = kse_choose(2, "errno") ? EINTR : EAGAIN; REACH("retried"); return -1; }
    if (k.mayFail && kse_choose(2, "failure")) { k.failed = true; int e = (int) sym_u8("errno"); ASSUME(e != 0 && e != EINTR && e != EAGAIN); k.failure = errno = e; return -1; }
    size_t m = n;
    if (m > 1 && k.shortLeft && kse_choose(2, "short write")) { k.shortLeft--; m = 1 + kse_choose((unsigned) (m - 1 > 5 ? 5 : m - 1), "put"); REACH("short"); }
    CHECK(k.outLen + m <= sizeof k.out, "no more is written than the message has");
    for (size_t i = 0; i < m; i++) k.out[k.outLen++] = ((const unsigned char *) buf)[i];
    return (ssize_t) m;
}
// other ways to ask for the same
ssize_t __wrap_recv(int fd, void *buf, size_t n, int flags) { CHECK((flags & (MSG_PEEK | MSG_OOB)) == 0, "reading consumes the stream"); return __wrap_read(fd, buf, n); }
ssize_t __wrap_send(int fd, const void *buf, size_t n, int flags) { CHECK((flags & MSG_OOB) == 0, "writing appends to the stream"); return __wrap_write(fd, buf, n); }
int __wrap_shutdown(int fd, int how)
{
    CHECK(isOpen(fd) && how == SHUT_WR, "the writing side is shut down, nothing else");
    if (k.mayFail && kse_choose(2, "shutdown fails")) { k.failed = true; errno = ENOTCONN; return -1; }
    k.shut++;
    return 0;
}
int __wrap_close(int fd)
{
    if (!isOpen(fd)) { kse_fail("a descriptor is closed twice, or one that is not the socket's"); errno = EBADF; return -1; }
    if (k.tempLeft && kse_choose(2, "interrupted")) { k.tempLeft--; errno = EINTR; return -1; }
    k.open[fd] = 0; k.closed++;
    if (k.mayFail && kse_choose(2, "stale errno")) errno = EINTR; // errno means nothing after a success
    return 0;
}
int __wrap_socket(int domain, int type, int)
{
    CHECK((domain == PF_INET || domain == AF_UNIX) && type == SOCK_STREAM, "stream sockets are created");
    if (kse_choose(2, "no socket")) { k.refused = true; errno = EMFILE; return -1; }
    return freshFd();
}
static int port, pathLen; static char hostSeen[8], pathSeen[110]; static bool unixSeen;
static void address(const struct sockaddr *a, socklen_t n)
{
    unixSeen = a->sa_family == AF_UNIX;
    if (unixSeen) { CHECK(n == sizeof(sockaddr_un), "the whole address is passed"); memcpy(pathSeen, ((const sockaddr_un *) a)->sun_path, 108); }
    else { CHECK(a->sa_family == AF_INET && n == sizeof(sockaddr_in), "the whole address is passed"); const unsigned char *p = (const unsigned char *) &((const sockaddr_in *) a)->sin_port; port = p[0] * 256 + p[1]; memcpy(hostSeen, &((const sockaddr_in *) a)->sin_addr, 4); }
}
in_addr_t __wrap_inet_addr(const char *s) { in_addr_t r; char b[4] = {s[0], s[1], s[2], s[3]}; memcpy(&r, b, 4); return r; }
int __wrap_connect(int fd, const struct sockaddr *a, socklen_t n)
{
    CHECK(isOpen(fd), "a new descriptor is connected");
    k.connects++; address(a, n);
    if (kse_choose(2, "refused")) { k.refused = true; int e = (int) sym_u8("connect errno"); ASSUME(e != 0); errno = e; return -1; }
    return 0;
}
int __wrap_bind(int fd, const struct sockaddr *a, socklen_t n) { CHECK(isOpen(fd), "a new descriptor is bound"); k.binds++; address(a, n); if (kse_choose(2, "bind fails")) { k.refused = true; errno = EADDRINUSE; return -1; } return 0; }
int __wrap_listen(int fd, int backlog) { CHECK(isOpen(fd) && k.binds == 1 && backlog > 0, "a bound socket listens"); k.listens++; if (kse_choose(2, "listen fails")) { k.refused = true; errno = EADDRINUSE; return -1; } return 0; }
int __wrap_fcntl(int, int, ...) { return 0; }
static int waitFor;
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *, struct timeval *tv)
{
    int fd = -1;
    for (int i = 0; i < FDS + 4; i++) if (FD_ISSET(i, r)) fd = i;
    CHECK(isOpen(fd) && n > fd && !w, "an accept waits for its own socket");
    CHECK(tv && tv->tv_sec == waitFor && tv->tv_usec == 0, "an accept waits for its timeout");
    k.selects++;
    if (kse_choose(2, "nobody")) { FD_ZERO(r); REACH("nobody"); return 0; }
    k.somebody++;
    return 1;
}
int __wrap_poll(struct pollfd *p, nfds_t n, int ms)
{
    CHECK(n == 1 && isOpen(p->fd) && (p->events & POLLIN), "an accept waits for its own socket");
    CHECK((int64_t) ms == (int64_t) waitFor * 1000 || waitFor > INT32_MAX / 1000 || waitFor < 0, "an accept waits for its timeout");
    k.selects++;
    p->revents = 0;
    if (kse_choose(2, "nobody")) { REACH("nobody"); return 0; }
    k.somebody++;
    p->revents = POLLIN;
    return 1;
}
int __wrap_accept(int fd, struct sockaddr *, socklen_t *n)
{
    CHECK(isOpen(fd) && *n >= sizeof(sockaddr_un), "an accept uses its own socket");
    k.accepts++;
    if (kse_choose(2, "accept fails")) { errno = ECONNABORTED; return -1; }
    return freshFd();
}
}

namespace {
// a string kept in an owned buffer of exactly its size, so that an access beyond it is seen
struct buffer { std::unique_ptr<char[]> p; size_t n; buffer(size_t n) : p(new char[n ? n : 1]), n(n) {} };
}
//! harness: sock_put
//! prop: C15
//! bounds: messages of 0..5 (thorough 8) arbitrary bytes, up to 2 short writes of any size, 1 temporary failure and one failure with any errno at any point
//! reach: sent gave_up retried short
HARNESS(sock_put)
{
    reset();
    size_t n = kse_choose(KSE_THOROUGH ? 9 : 6, "size");
    k.mayFail = true;
    k.fdExpected = freshFd(2);
    DataSocket s(k.fdExpected);
    buffer b(n);
    kse_make_symbolic(b.p.get(), n ? n : 1, "message");
    bool domain = false, runtime = false;
    try { s.putMessageData(b.p.get(), n); } catch (const std::domain_error &) { domain = true; } catch (const std::runtime_error &) { runtime = true; }
    CHECK((domain || runtime) == k.failed, "a send fails exactly when the connection does");
    CHECK(k.failed || k.outLen == n, "a message that was sent was sent completely");
    CHECK(k.outLen <= n && memcmp(k.out, b.p.get(), k.outLen) == 0, "what is sent is the message, in order, nothing twice");
    if (k.failed) {
        int e = k.failure;
        if (e == EBADF || e == EPIPE || e == ECONNRESET || e == EINVAL || e == ENXIO) CHECK(domain, "a broken connection is a critical error"); else CHECK(runtime, "another failure is a resource failure");
        REACH("gave_up");
    } else REACH("sent");
    k.mayFail = false;
}
//! harness: sock_get
//! prop: C15
//! bounds: streams of 0..4 (thorough 6) arbitrary bytes into buffers of 0..4 (thorough 6), up to 2 short reads, 1 temporary failure, one failure with any errno at any point; an end mark after any number of bytes
//! reach: filled ended marked failed reset retried short
HARNESS(sock_get)
{
    reset();
    int most = KSE_THOROUGH ? 7 : 5;
    size_t n = kse_choose(most, "room"), mark = 1 + kse_choose(most, "end mark");
    k.inLen = kse_choose(most, "stream");
    kse_make_symbolic(k.in, 8, "stream");
    k.mayFail = kse_choose(2, "may fail");
    k.fdExpected = freshFd(2);
    DataSocket s(k.fdExpected);
    buffer b(n);
    size_t asked = 0, got = 0;
    bool marked = false, domain = false, runtime = false;
    auto scan = [&](size_t have) { CHECK(!marked && have > asked && have == k.inPos, "the end mark is looked for after every read, with all that was read"); asked = have; marked = have >= mark; return marked; };
    try { got = s.getMessageData(b.p.get(), n, scan); } catch (const std::domain_error &) { domain = true; } catch (const std::runtime_error &) { runtime = true; }
    bool reset = k.failed && (k.failure == ECONNRESET || k.failure == ENOTCONN);
    CHECK((domain || runtime) == (k.failed && !reset), "a receive fails exactly when the connection does, and a lost connection is the end of the message");
    if (k.failed && !reset) {
        int e = k.failure;
        if (e == EBADF || e == EFAULT || e == EINVAL || e == ENXIO) CHECK(domain, "misuse is a critical error"); else CHECK(runtime, "another failure is a resource failure");
        REACH("failed");
    } else {
        CHECK(got == k.inPos && got <= n, "a receive reports how much it read");
        CHECK(reset || marked || got == (n < k.inLen ? n : k.inLen), "a receive fills its buffer unless the stream ends or the end mark is seen");
        if (reset) REACH("reset"); else if (marked) REACH("marked"); else if (got == n) REACH("filled"); else REACH("ended");
    }
    CHECK(k.inPos <= n && memcmp(b.p.get(), k.in, k.inPos) == 0, "what is read is the stream, in order");
    k.mayFail = false;
}
//! harness: sock_receive_message
//! prop: C15
//! bounds: messages of 0..60 arbitrary bytes (every size up to 18 and around the growth steps of the buffer), up to 2 short reads and 1 temporary failure at any point; the message variable is empty, short or long before
//! reach: received retried short
HARNESS(sock_receive_message)
{
    reset();
    static const unsigned sizes[] = {0, 1, 2, 13, 14, 15, 16, 30, 31, 32, 33, 60};
    unsigned n = sizes[kse_choose(12, "size")];
    k.inLen = n;
    k.shortLeft = KSE_THOROUGH ? 2 : 1;
    kse_make_symbolic(k.in, sizeof k.in, "stream");
    k.fdExpected = freshFd(2);
    ProtocolSimple p(std::make_shared<DataSocket>(k.fdExpected));
    std::string m;
    switch (kse_choose(3, "before")) { case 1: m = "old"; break; case 2: m = "an old message that is quite long"; break; }
    p.recvMessage(m);
    CHECK(m.size() == n, "a message is received completely");
    CHECK(memcmp(m.data(), k.in, n) == 0, "the message received is the one sent");
    REACH("received");
}
//! harness: sock_send_message
//! prop: C15
//! bounds: messages of 0, 1, 5 and 20 arbitrary bytes, up to 2 short writes, 1 temporary failure and one failure at any point
//! reach: sent failed
HARNESS(sock_send_message)
{
    reset();
    static const unsigned sizes[] = {0, 1, 5, 20};
    unsigned n = sizes[kse_choose(4, "size")];
    std::string m(n, ' ');
    for (auto &c : m) c = (char) sym_u8("m");
    k.mayFail = kse_choose(2, "may fail");
    {
        k.fdExpected = freshFd(2);
        ProtocolSimple p(std::make_shared<DataSocket>(k.fdExpected));
        bool failed = false;
        try { p.sendMessage(m); } catch (const std::exception &) { failed = true; }
        CHECK(failed == k.failed, "a send fails exactly when the connection does");
        if (!failed) { CHECK(k.outLen == n && memcmp(k.out, m.data(), n) == 0, "a message is sent completely"); CHECK(k.shut == 1, "the end of a message is marked once, after it"); REACH("sent"); }
        else REACH("failed");
        k.mayFail = false;
    }
    CHECK(k.closed == 1, "the socket is closed when its last owner goes");
}

//! harness: sock_owner_history
//! prop: C16
//! bounds: 2 sockets of arbitrary descriptors, 3 (thorough 4) moves, swaps, closes and destructions in any order; a close may be interrupted once
//! reach: closed_twice moved
HARNESS(sock_owner_history)
{
    reset();
    k.mayFail = kse_choose(2, "stale");
    {
        std::unique_ptr<DataSocket> s[3];
        int owns[3] = {-1, -1, -1};
        for (int i = 0; i < 2; i++) { owns[i] = freshFd(KSE_THOROUGH ? 4 : 2); s[i].reset(new DataSocket(owns[i])); }
        for (int step = 0; step < (KSE_THOROUGH ? 4 : 3); step++) {
            int i = (int) kse_choose(2, "socket"), j = 1 - i;
            switch (kse_choose(6, "operation")) {
            case 0: if (!s[i]) break; { bool threw = false; try { s[i]->close(); } catch (const std::exception &) { threw = true; } CHECK(threw == (owns[i] == -1), "a close succeeds unless the socket is closed already"); if (threw) REACH("closed_twice"); owns[i] = -1; } break;
            case 1: if (!s[i] || s[2]) break; s[2].reset(new DataSocket(std::move(*s[i]))); owns[2] = owns[i]; owns[i] = -1; REACH("moved"); break;
            case 2: if (!s[i] || !s[j]) break; { int a = owns[i], b = owns[j]; *s[i] = std::move(*s[j]); owns[i] = b; owns[j] = -1; (void) a; // what the target owned goes either way
                s[j].reset(); } break;
            case 3: if (!s[i] || !s[j]) break; s[i]->swap(*s[j]); std::swap(owns[i], owns[j]); break;
            case 4: s[i].reset(); owns[i] = -1; break;
            default: if (!s[2]) break; s[2].reset(); owns[2] = -1; break;
            }
            for (int a = 0; a < 3; a++) if (s[a] && owns[a] >= 0) CHECK(isOpen(owns[a]), "a socket's descriptor stays open while it has an owner");
            int held = 0;
            for (int a = 0; a < 3; a++) held += owns[a] >= 0;
            CHECK(k.opened - k.closed == held, "a descriptor is closed once its owner is gone");
            for (int a = 0; a < 3; a++) if (s[a] && owns[a] < 0) {
                bool threw = false;
                char c = 0;
                try { s[a]->putMessageData(&c, 0); s[a]->close(); } catch (const std::logic_error &) { threw = true; }
                CHECK(threw, "closing a closed or moved socket is an error");
            }
        }
    }
    CHECK(k.opened == k.closed, "every descriptor is closed exactly once");
    bool threw = false;
    try { DataSocket bad(-1); } catch (const std::runtime_error &) { threw = true; }
    CHECK(threw && k.opened == k.closed, "a socket cannot be made from no descriptor");
}
//! harness: sock_zero
//! prop: C15
//! bounds: any descriptor from 0 on
//! reach: read
HARNESS(sock_zero)
{
    reset();
    k.inLen = 1; k.in[0] = sym_u8("c");
    k.open[0] = 1; k.opened++; k.fdExpected = 0;
    DataSocket s(0);
    char c = 0;
    size_t got = s.getMessageData(&c, 1, [](size_t) { return false; });
    CHECK(got == 1 && c == (char) k.in[0], "any valid descriptor can be read");
    REACH("read");
}
//! harness: sock_connect
//! prop: C16
//! bounds: connections to any port and address or to paths of 0, 3 and 107 bytes; every outcome of each system call
//! reach: connected refused none
HARNESS(sock_connect)
{
    reset();
    bool isUnix = kse_choose(2, "unix"), failed = false;
    static const unsigned sizes[] = {0, 3, 107};
    std::string path(sizes[kse_choose(3, "path")], 'p'), host(8, 'h');
    if (isUnix) for (unsigned i = 0; i < path.size() && i < 4; i++) { path[i] = (char) sym_u8("path"); ASSUME(path[i] != 0); }
    for (int i = 0; i < 4; i++) host[i] = (char) sym_u8("host");
    int p = (int) sym_u16("port");
    {
        std::unique_ptr<ConnectSocket> s;
        try { if (isUnix) s.reset(new ConnectSocket(path)); else s.reset(new ConnectSocket(host, p)); } catch (const std::runtime_error &) { failed = true; }
        CHECK(failed == k.refused, "connecting fails exactly when a call for it fails");
        if (!k.opened) { CHECK(failed && !k.connects, "no socket, no connection"); REACH("none"); return; }
        CHECK(k.connects == 1 && unixSeen == isUnix, "a connection is tried once");
        if (isUnix) CHECK(strlen(pathSeen) == path.size() && memcmp(pathSeen, path.data(), path.size()) == 0, "the path connected to is the one given");
        else CHECK(port == p && memcmp(hostSeen, host.data(), 4) == 0, "the host and port connected to are the ones given");
        if (failed) { CHECK(k.closed == 1, "a refused connection leaves no descriptor open"); REACH("refused"); }
        else { CHECK(k.closed == 0, "a connected socket is open"); REACH("connected"); }
    }
    CHECK(k.closed == 1, "every descriptor is closed exactly once");
}
//! harness: sock_server
//! prop: C16
//! bounds: servers on any port or on a path; every outcome of each system call; 2 accepts with any timeout
//! reach: accepted nobody failed not_listening
HARNESS(sock_server)
{
    reset();
    bool isUnix = kse_choose(2, "unix"), failed = false;
    std::string path = "/p/q";
    for (auto &c : path) { c = (char) sym_u8("path"); ASSUME(c != 0); }
    int p = (int) sym_u16("port");
    {
        std::unique_ptr<ServerSocket> s;
        try { if (isUnix) s.reset(new ServerSocket(path)); else s.reset(new ServerSocket(p)); } catch (const std::runtime_error &) { failed = true; }
        CHECK(failed == k.refused, "listening fails exactly when a call for it fails");
        if (failed) { CHECK(!s && k.opened == k.closed, "a server that cannot listen leaves no descriptor open"); REACH("not_listening"); return; }
        CHECK(k.binds == 1 && k.listens == 1 && unixSeen == isUnix, "a server binds and listens once");
        if (isUnix) CHECK(memcmp(pathSeen, path.data(), path.size()) == 0 && pathSeen[path.size()] == 0, "the path listened on is the one given"); else CHECK(port == p && hostSeen[0] == 0 && hostSeen[1] == 0 && hostSeen[2] == 0 && hostSeen[3] == 0, "the port listened on is the one given, on every interface");
        std::shared_ptr<DataSocket> d[2];
        for (int i = 0; i < 2; i++) {
            int before = k.opened;
            waitFor = (int) sym_i32("timeout");
            try { d[i] = s->accept(waitFor); } catch (const std::runtime_error &) {}
            CHECK(k.accepts == k.somebody, "a waiting connection is accepted");
            CHECK((d[i] != nullptr) == (k.opened == before + 1), "an accept returns the connection, or fails");
            if (d[i]) REACH("accepted"); else REACH("failed");
        }
        if (kse_choose(2, "server goes first")) s.reset();
        else { s->close(); bool threw = false; try { s->accept(1); } catch (const std::logic_error &) { threw = true; } CHECK(threw, "a closed server accepts nobody"); }
        CHECK(k.closed == 1, "connections outlive their server");
    }
    CHECK(k.opened == k.closed, "every descriptor is closed exactly once");
}
