// Compile-time witness: an object that owns a descriptor or TLS state cannot be duplicated silently.
#include <type_traits>
#include <frnetlib/TcpSocket.h>
#include <frnetlib/TcpListener.h>
#include <frnetlib/SSLContext.h>
#include <frnetlib/SSLSocket.h>
#include <frnetlib/SSLListener.h>
#include <frnetlib/WebSocket.h>
#include <frnetlib/SocketSelector.h>
#define OWNER(...) \
    static_assert(!std::is_copy_constructible<__VA_ARGS__>::value, "C07: " #__VA_ARGS__ " can be copy constructed"); \
    static_assert(!std::is_copy_assignable<__VA_ARGS__>::value, "C07: " #__VA_ARGS__ " can be copy assigned")
OWNER(fr::TcpSocket);
OWNER(fr::TcpListener);
OWNER(fr::SSLContext);
OWNER(fr::SSLSocket);
OWNER(fr::SSLListener);
OWNER(fr::WebSocket<fr::TcpSocket>);
OWNER(fr::SocketSelector);
