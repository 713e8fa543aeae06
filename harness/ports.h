// A TCP port that no other process of the checks uses: outside the range of automatic ports; every driver has a range of its own.
#pragma once
#include "explore.h"
#include <arpa/inet.h>
#include <sys/socket.h>
#include <sys/un.h>
inline int port_slot = -1;
// a range is taken by binding an abstract local socket, which goes away with the process
inline void take_ports()
{
    for (int k = 0; k < 5000; ++k)
    {
        int i = (int)((unsigned)getpid() + (unsigned)k) % 140;
        int fd = socket(AF_UNIX, SOCK_STREAM, 0);
        sockaddr_un u{};
        u.sun_family = AF_UNIX;
        int n = snprintf(u.sun_path + 1, sizeof u.sun_path - 1, "cornerstone-verif-ports-%d", i);
        if (bind(fd, (sockaddr*)&u, (socklen_t)(offsetof(sockaddr_un, sun_path) + 1 + n)) == 0)
        {
            port_slot = i;
            return;
        }
        close(fd);
        if (k % 140 == 139) usleep(100000);
    }
    port_slot = 0;
}
// binds a socket to a port (not listening yet); n: number of the execution
inline int bound_socket(int& port, long n)
{
    for (int k = 0; k < 150; ++k)
    {
        int fd = socket(AF_INET, SOCK_STREAM, 0), one = 1;
        setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
        sockaddr_in sa{};
        sa.sin_family = AF_INET;
        sa.sin_addr.s_addr = htonl(INADDR_ANY);
        port = 10000 + port_slot * 150 + (int)((n + k) % 150);
        sa.sin_port = htons((uint16_t)port);
        if (bind(fd, (sockaddr*)&sa, sizeof sa) == 0) return fd;
        close(fd);
    }
    ex::not_run();
}
