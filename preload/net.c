/* preloaded: every host name is this machine, and port 443 is VERIF_PORT; nothing else is reached */
#define _GNU_SOURCE
#include <arpa/inet.h>
#include <dlfcn.h>
#include <errno.h>
#include <netdb.h>
#include <netinet/in.h>
#include <stdlib.h>
#include <sys/socket.h>

int getaddrinfo(const char *node, const char *service, const struct addrinfo *hints, struct addrinfo **res) {
    static int (*real)(const char *, const char *, const struct addrinfo *, struct addrinfo **);
    if (!real) real = dlsym(RTLD_NEXT, "getaddrinfo");
    (void)node;
    struct addrinfo h = {0};
    if (hints) h = *hints;
    h.ai_family = AF_INET;
    h.ai_flags = AI_NUMERICHOST;
    return real("127.0.0.1", service, &h, res);
}

int connect(int fd, const struct sockaddr *a, socklen_t len) {
    static int (*real)(int, const struct sockaddr *, socklen_t);
    if (!real) real = dlsym(RTLD_NEXT, "connect");
    if (a->sa_family == AF_INET) {
        struct sockaddr_in to = *(const struct sockaddr_in *)a;
        const char *port = getenv("VERIF_PORT");
        if (ntohl(to.sin_addr.s_addr) == INADDR_LOOPBACK && ntohs(to.sin_port) == 443 && port) {
            to.sin_port = htons(atoi(port));
            return real(fd, (struct sockaddr *)&to, sizeof to);
        }
    }
    if (a->sa_family == AF_UNIX) return real(fd, a, len);
    errno = ENETUNREACH;
    return -1;
}
