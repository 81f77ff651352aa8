From 96571012e13df401cffefa83c9274a9f8ae5a25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:13 +0000
Subject: [PATCH 01/41] fix: socket() reports failure with -1, not 0

---
 include/frnetlib/NetworkEncoding.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/frnetlib/NetworkEncoding.h b/include/frnetlib/NetworkEncoding.h
index 23ece3f..bcdc300 100644
--- a/include/frnetlib/NetworkEncoding.h
+++ b/include/frnetlib/NetworkEncoding.h
@@ -31,7 +31,7 @@
 #endif
 
 #define closesocket(x) close(x)
-#define INVALID_SOCKET 0
+#define INVALID_SOCKET (-1)
 #define SOCKET_ERROR (-1)
 
 #include <unistd.h>
-- 
2.43.0


From 4b24176d2179a37de31004327070781edf4abd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:55 +0000
Subject: [PATCH 02/41] fix: TcpSocket::connect leaked descriptors and stayed
 half open on failure

---
 src/TcpSocket.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/TcpSocket.cpp b/src/TcpSocket.cpp
index f37abda..8f2de05 100644
--- a/src/TcpSocket.cpp
+++ b/src/TcpSocket.cpp
@@ -111,6 +111,9 @@ namespace fr
 
     Socket::Status TcpSocket::connect(const std::string &address, const std::string &port, std::chrono::seconds timeout)
     {
+        //Drop any earlier connection, this is a new one
+        close_socket();
+
         //Setup required structures
         int ret = 0;
         addrinfo *info;
@@ -135,6 +138,7 @@ namespace fr
         for(c = info; c != nullptr; c = c->ai_next)
         {
             //Get the socket for this entry
+            close_socket(); //previous attempt, if any, failed
             socket_descriptor = ::socket(c->ai_family, c->ai_socktype, c->ai_protocol);
             if(socket_descriptor == INVALID_SOCKET)
                 continue;
@@ -183,11 +187,18 @@ namespace fr
         //We're done with this now, cleanup
         freeaddrinfo(info);
         if(c == nullptr)
+        {
+            close_socket();
             return Socket::Status::NoRouteToHost;
+        }
 
         //Turn back to blocking mode
         if(!set_unix_socket_blocking(socket_descriptor, false, true))
+        {
+            close_socket();
             return Socket::Status::Error;
+        }
+        is_blocking = true;
 
         //Update state now we've got a valid socket descriptor
         set_remote_address(address + ":" + port);
-- 
2.43.0


From b817d9b0da15651e207c982fe4f2f1b424fdc012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:56 +0000
Subject: [PATCH 03/41] fix: TcpSocket::set_descriptor leaked the descriptor it
 replaced

---
 src/TcpSocket.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/TcpSocket.cpp b/src/TcpSocket.cpp
index 8f2de05..c7ae079 100644
--- a/src/TcpSocket.cpp
+++ b/src/TcpSocket.cpp
@@ -105,7 +105,11 @@ namespace fr
             socket_descriptor = -1;
             return;
         }
-        socket_descriptor = *static_cast<int32_t*>(descriptor);
+        int32_t new_descriptor = *static_cast<int32_t*>(descriptor);
+        if(new_descriptor != socket_descriptor)
+            close_socket();
+        socket_descriptor = new_descriptor;
+        is_blocking = true;
         reconfigure_socket();
     }
 
-- 
2.43.0


From e90219650cebd990563bc2770bae2595d41b3b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:56 +0000
Subject: [PATCH 04/41] fix: TcpListener::listen leaked descriptors and closed
 some twice on failure

---
 src/TcpListener.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/TcpListener.cpp b/src/TcpListener.cpp
index fb0226c..4525172 100644
--- a/src/TcpListener.cpp
+++ b/src/TcpListener.cpp
@@ -25,6 +25,9 @@ namespace fr
 
     Socket::Status TcpListener::listen(const std::string &port)
     {
+        //Drop the descriptor of an earlier listen, if any
+        close_socket();
+
         addrinfo *info;
         addrinfo hints{};
 
@@ -53,12 +56,14 @@ namespace fr
             //Set address re-use option if not on Windows (potentially sketchy)
             if(setsockopt(socket_descriptor, SOL_SOCKET, SO_REUSEADDR, (char*)&yes, sizeof(int)) == SOCKET_ERROR)
             {
+                close_socket();
                 continue;
             }
 
             //Set port re-use option
             if(setsockopt(socket_descriptor, SOL_SOCKET, SO_REUSEPORT, (char*)&yes, sizeof(int)) == SOCKET_ERROR)
             {
+                close_socket();
                 continue;
             }
 #endif
@@ -72,7 +77,7 @@ namespace fr
             //Attempt to bind
             if(bind(socket_descriptor, c->ai_addr, c->ai_addrlen) == SOCKET_ERROR)
             {
-                closesocket(socket_descriptor);
+                close_socket();
                 continue;
             }
             break;
@@ -91,6 +96,7 @@ namespace fr
         //Listen to socket
         if(::listen(socket_descriptor, LISTEN_QUEUE_SIZE) == SOCKET_ERROR)
         {
+            close_socket();
             return Socket::Status::ListenFailed;
         }
         return Socket::Status::Success;
-- 
2.43.0


From ef4f3366fe8c0d121534280faf18e5818c754282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:56 +0000
Subject: [PATCH 05/41] fix: a moved-from TcpListener closed the descriptor it
 had given away

---
 include/frnetlib/TcpListener.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/frnetlib/TcpListener.h b/include/frnetlib/TcpListener.h
index 1e0c29a..7dcbaba 100644
--- a/include/frnetlib/TcpListener.h
+++ b/include/frnetlib/TcpListener.h
@@ -19,7 +19,12 @@ public:
     TcpListener();
 
     ~TcpListener() override;
-    TcpListener(TcpListener &&o) = default;
+    TcpListener(TcpListener &&o) noexcept
+    : Listener(o),
+      socket_descriptor(o.socket_descriptor)
+    {
+        o.socket_descriptor = -1;
+    }
 
     /*!
      * Listens to the given port for connections
-- 
2.43.0


From a8053d209ba15e2a094a0d03a205db10f4d8dfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:56 +0000
Subject: [PATCH 06/41] fix: copying a SocketSelector closed its epoll
 descriptor twice

---
 include/frnetlib/SocketSelector.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/frnetlib/SocketSelector.h b/include/frnetlib/SocketSelector.h
index 1b11fb6..047c1f0 100644
--- a/include/frnetlib/SocketSelector.h
+++ b/include/frnetlib/SocketSelector.h
@@ -20,6 +20,8 @@ namespace fr
     public:
         SocketSelector();
         ~SocketSelector();
+        SocketSelector(const SocketSelector &) = delete;
+        void operator=(const SocketSelector &) = delete;
 
         /*!
          * Adds a socket to the selector along with some opaque state
-- 
2.43.0


From f83fba2c722b72d7fa5d2980c513e1a4b4eceb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:22 +0000
Subject: [PATCH 07/41] fix: SSLSocket::connect left a failed connection open
 and usable

---
 src/SSLSocket.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/SSLSocket.cpp b/src/SSLSocket.cpp
index faf3890..49308a5 100644
--- a/src/SSLSocket.cpp
+++ b/src/SSLSocket.cpp
@@ -159,6 +159,23 @@ namespace fr
 
     Socket::Status SSLSocket::connect(const std::string &address, const std::string &port, std::chrono::seconds timeout)
     {
+        //Whatever was connected or configured before is replaced, and a failure leaves nothing half open
+        close_socket();
+        mbedtls_ssl_config_free(&conf);
+        mbedtls_ssl_config_init(&conf);
+        struct Rollback
+        {
+            SSLSocket *socket;
+            ~Rollback()
+            {
+                if(!socket)
+                    return;
+                int error = errno;
+                socket->close_socket();
+                errno = error;
+            }
+        } rollback{this};
+
         //Initialise mbedtls stuff
         ssl.reset(ssl_create());
         ssl_socket_descriptor.reset(net_create());
@@ -221,8 +238,10 @@ namespace fr
         }
 
         //Update state
+        is_blocking = true;
         reconfigure_socket();
 
+        rollback.socket = nullptr;
         return Socket::Status::Success;
     }
 
-- 
2.43.0


From e8b5e48c7bfe041c133a600ae13b4d0419b2b6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:22 +0000
Subject: [PATCH 08/41] fix: SSLSocket::set_blocking always made the descriptor
 blocking

---
 src/SSLSocket.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/SSLSocket.cpp b/src/SSLSocket.cpp
index 49308a5..6deefc9 100644
--- a/src/SSLSocket.cpp
+++ b/src/SSLSocket.cpp
@@ -253,6 +253,7 @@ namespace fr
     void SSLSocket::set_descriptor(void *descriptor)
     {
         ssl_socket_descriptor.reset(static_cast<mbedtls_net_context*>(descriptor));
+        is_blocking = true;
         if(descriptor)
             reconfigure_socket();
     }
@@ -264,7 +265,10 @@ namespace fr
 
     fr::Socket::Status SSLSocket::set_blocking(bool should_block)
     {
-        int ret = mbedtls_net_set_block(ssl_socket_descriptor.get());
+        if(!connected())
+            return fr::Socket::Status::Error;
+
+        int ret = should_block ? mbedtls_net_set_block(ssl_socket_descriptor.get()) : mbedtls_net_set_nonblock(ssl_socket_descriptor.get());
         if(ret != 0)
         {
             errno = ret;
-- 
2.43.0


From 7607d5edee9d1a61ad7d8525b0797199d85bf645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:22 +0000
Subject: [PATCH 09/41] fix: SSLSocket::receive_raw span instead of reporting
 WouldBlock

---
 src/SSLSocket.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/SSLSocket.cpp b/src/SSLSocket.cpp
index 6deefc9..f032800 100644
--- a/src/SSLSocket.cpp
+++ b/src/SSLSocket.cpp
@@ -95,6 +95,7 @@ namespace fr
 
     Socket::Status SSLSocket::receive_raw(void *data, size_t data_size, size_t &received)
     {
+        received = 0;
         ssize_t status = 0;
         if(receive_timeout == 0)
         {
@@ -113,7 +114,11 @@ namespace fr
                         {
                             return Socket::Status::Timeout;
                         }
-                        continue;
+                        return Socket::Status::WouldBlock;
+                    }
+                    if(status == MBEDTLS_ERR_SSL_PEER_CLOSE_NOTIFY)
+                    {
+                        return Socket::Status::Disconnected;
                     }
 
                     errno = static_cast<int>(status);
-- 
2.43.0


From 04dd176018294e08af95eed7bc83fe7db97529c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:22 +0000
Subject: [PATCH 10/41] fix: SSLSocket::send_raw repeated bytes already sent
 when a send was continued

---
 src/SSLSocket.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/SSLSocket.cpp b/src/SSLSocket.cpp
index f032800..14acd21 100644
--- a/src/SSLSocket.cpp
+++ b/src/SSLSocket.cpp
@@ -66,7 +66,6 @@ namespace fr
 
     Socket::Status SSLSocket::send_raw(const char *data, size_t size, size_t &sent)
     {
-        sent = 0;
         ssize_t status = 0;
 
         while(sent < size)
-- 
2.43.0


From 056107709dc02011e5d889143ec5f29e91116668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:37 +0000
Subject: [PATCH 11/41] fix: SSLListener leaked when its constructor failed and
 served without a certificate

---
 src/SSLListener.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/SSLListener.cpp b/src/SSLListener.cpp
index 51796b0..e766381 100644
--- a/src/SSLListener.cpp
+++ b/src/SSLListener.cpp
@@ -24,6 +24,20 @@ namespace fr
         mbedtls_x509_crt_init(&srvcert);
         mbedtls_pk_init(&pkey);
 
+        //The destructor doesn't run if this throws
+        struct Rollback
+        {
+            SSLListener *listener;
+            ~Rollback()
+            {
+                if(!listener)
+                    return;
+                mbedtls_x509_crt_free(&listener->srvcert);
+                mbedtls_pk_free(&listener->pkey);
+                mbedtls_ssl_config_free(&listener->conf);
+            }
+        } rollback{this};
+
         int error = 0;
 
         //Load public key
@@ -53,9 +67,9 @@ namespace fr
         error = mbedtls_ssl_conf_own_cert(&conf, &srvcert, &pkey);
         if(error != 0)
         {
-            std::cout << "Failed to set certificate: " << error << std::endl;
-            return;
+            throw std::runtime_error("mbedtls_ssl_conf_own_cert() returned: " + std::to_string(error));
         }
+        rollback.listener = nullptr;
     }
 
     SSLListener::~SSLListener()
-- 
2.43.0


From 065115e9e250343d9c9512904e226a171917e118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:37 +0000
Subject: [PATCH 12/41] fix: SSLContext leaked when its constructor failed

---
 include/frnetlib/SSLContext.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/frnetlib/SSLContext.h b/include/frnetlib/SSLContext.h
index cf39e45..3f2c364 100644
--- a/include/frnetlib/SSLContext.h
+++ b/include/frnetlib/SSLContext.h
@@ -37,6 +37,9 @@ namespace fr
             mbedtls_entropy_init(&entropy);
             if((error = mbedtls_ctr_drbg_seed(&ctr_drbg, mbedtls_entropy_func, &entropy, nullptr, 0)) != 0)
             {
+                mbedtls_ctr_drbg_free(&ctr_drbg);
+                mbedtls_entropy_free(&entropy);
+                mbedtls_x509_crt_free(&cacert);
                 throw std::runtime_error("Failed to initialise random number generator. Returned error: " + std::to_string(error));
             }
         }
-- 
2.43.0


From 498a064e60bc78442a38e9074b85e839c51884f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:37 +0000
Subject: [PATCH 13/41] fix: SocketSelector::remove threw for a socket that had
 been closed and kept its entry

---
 src/SocketSelector.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SocketSelector.cpp b/src/SocketSelector.cpp
index f32dd84..2acb6d6 100644
--- a/src/SocketSelector.cpp
+++ b/src/SocketSelector.cpp
@@ -83,7 +83,8 @@ namespace fr
             return nullptr;
         }
 
-        if(epoll_ctl(epoll_fd, EPOLL_CTL_DEL, iter->second.descriptor, nullptr) < 0)
+        //A descriptor which has been closed since has already been removed by the kernel
+        if(epoll_ctl(epoll_fd, EPOLL_CTL_DEL, iter->second.descriptor, nullptr) < 0 && errno != EBADF && errno != ENOENT)
         {
             throw std::runtime_error("Failed to remove socket: " + std::to_string(iter->second.descriptor) + ". Errno: " + std::to_string(errno));
         }
-- 
2.43.0


From 4e48b81c98709ddc077da9715cb4ccb636fc0c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:56 +0000
Subject: [PATCH 14/41] fix: SocketSelector::remove unregistered another socket
 that had taken over the descriptor number

---
 src/SocketSelector.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/SocketSelector.cpp b/src/SocketSelector.cpp
index 2acb6d6..6405958 100644
--- a/src/SocketSelector.cpp
+++ b/src/SocketSelector.cpp
@@ -83,8 +83,9 @@ namespace fr
             return nullptr;
         }
 
-        //A descriptor which has been closed since has already been removed by the kernel
-        if(epoll_ctl(epoll_fd, EPOLL_CTL_DEL, iter->second.descriptor, nullptr) < 0 && errno != EBADF && errno != ENOENT)
+        //A descriptor which has been closed since has already been removed by the kernel, and its number may be another socket's now
+        bool still_open = iter->second.descriptor == iter->second.socket->get_socket_descriptor();
+        if(still_open && epoll_ctl(epoll_fd, EPOLL_CTL_DEL, iter->second.descriptor, nullptr) < 0 && errno != EBADF && errno != ENOENT)
         {
             throw std::runtime_error("Failed to remove socket: " + std::to_string(iter->second.descriptor) + ". Errno: " + std::to_string(errno));
         }
-- 
2.43.0


From 96fb59ae2cbc39f33a148ca48158f2497efb7b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:16 +0000
Subject: [PATCH 15/41] fix: Packet::assert_bytes_remaining accepted sizes
 close to SIZE_MAX

---
 include/frnetlib/Packet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/frnetlib/Packet.h b/include/frnetlib/Packet.h
index 67d1db0..1bd6e18 100644
--- a/include/frnetlib/Packet.h
+++ b/include/frnetlib/Packet.h
@@ -695,7 +695,7 @@ namespace fr
          */
         inline void assert_bytes_remaining(size_t required_space) const
         {
-            if(buffer_read_index + required_space > buffer.size())
+            if(required_space > get_bytes_remaining())
             {
                 throw std::out_of_range("Not enough bytes remaining in packet to extract requested data");
             }
-- 
2.43.0


From 4e61641ee0c8c3c41f5bece51582b03a2e88b479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:16 +0000
Subject: [PATCH 16/41] fix: seeking a Packet close to the integer limits left
 the cursor inside the header

---
 include/frnetlib/Packet.h | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/include/frnetlib/Packet.h b/include/frnetlib/Packet.h
index 1bd6e18..9127907 100644
--- a/include/frnetlib/Packet.h
+++ b/include/frnetlib/Packet.h
@@ -643,8 +643,7 @@ namespace fr
          */
         inline void set_cursor(size_t pos = 0)
         {
-            buffer_read_index = PACKET_HEADER_LENGTH + pos;
-            if(buffer_read_index > buffer.size()) buffer_read_index = buffer.size();
+            buffer_read_index = pos > size() ? buffer.size() : PACKET_HEADER_LENGTH + pos;
         }
 
         /*!
@@ -666,12 +665,12 @@ namespace fr
          */
         inline void seek_cursor(ssize_t pos)
         {
-            ssize_t new_offset = buffer_read_index + pos;
-            if(new_offset < (ssize_t)PACKET_HEADER_LENGTH)
-                new_offset = PACKET_HEADER_LENGTH;
-            if(new_offset > (ssize_t)buffer.size())
-                new_offset = buffer.size();
-            buffer_read_index = static_cast<size_t>(new_offset);
+            if(pos < -(ssize_t)get_cursor())
+                buffer_read_index = PACKET_HEADER_LENGTH;
+            else if(pos > (ssize_t)get_bytes_remaining())
+                buffer_read_index = buffer.size();
+            else
+                buffer_read_index += pos;
         }
 
         /*!
-- 
2.43.0


From 279d7ed985243fd9f80260fc45d8e8bdf3fedb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:16 +0000
Subject: [PATCH 17/41] fix: Packet::set_buffer left the cursor outside of a
 shorter buffer

---
 include/frnetlib/Packet.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/frnetlib/Packet.h b/include/frnetlib/Packet.h
index 9127907..3f501f7 100644
--- a/include/frnetlib/Packet.h
+++ b/include/frnetlib/Packet.h
@@ -622,6 +622,12 @@ namespace fr
         inline void set_buffer(std::string &&data)
         {
             buffer = std::move(data);
+
+            //The header must always be there, and the cursor within the data
+            if(buffer.size() < PACKET_HEADER_LENGTH)
+                buffer.resize(PACKET_HEADER_LENGTH);
+            if(buffer_read_index > buffer.size())
+                buffer_read_index = buffer.size();
         }
 
         /*!
-- 
2.43.0


From 29a97b6e162e63f9900539d3d195443d7ea1948f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:16 +0000
Subject: [PATCH 18/41] fix: a reused Packet kept old data and its cursor when
 receiving

---
 include/frnetlib/Packet.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/frnetlib/Packet.h b/include/frnetlib/Packet.h
index 3f501f7..55211a1 100644
--- a/include/frnetlib/Packet.h
+++ b/include/frnetlib/Packet.h
@@ -777,8 +777,8 @@ namespace fr
                 return fr::Socket::Status::MaxPacketSizeExceeded;
 
             //Now we've got the length, read the rest of the data in
-            if(packet_length + PACKET_HEADER_LENGTH > buffer.size())
-                buffer.resize(packet_length + PACKET_HEADER_LENGTH);
+            buffer.resize(packet_length + PACKET_HEADER_LENGTH);
+            buffer_read_index = PACKET_HEADER_LENGTH;
 
             do
             {
-- 
2.43.0


From f52ff8c118f0ccef37c9ae586b56dc0609bf2ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:16 +0000
Subject: [PATCH 19/41] fix: extracting a bool from a Packet could yield a
 value which is neither true nor false

---
 include/frnetlib/Packet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/frnetlib/Packet.h b/include/frnetlib/Packet.h
index 55211a1..1727ad3 100644
--- a/include/frnetlib/Packet.h
+++ b/include/frnetlib/Packet.h
@@ -264,7 +264,7 @@ namespace fr
         {
             assert_bytes_remaining(sizeof(var));
 
-            memcpy(&var, &buffer[buffer_read_index], sizeof(var));
+            var = buffer[buffer_read_index] != 0;
             buffer_read_index += sizeof(var);
             return *this;
         }
-- 
2.43.0


From 5304bbdaa6e963c372c6a499ecefe679d7875748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:16 +0000
Subject: [PATCH 20/41] fix: extracting a vector from a Packet allocated as
 much as the packet claimed to hold

---
 include/frnetlib/Packet.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/frnetlib/Packet.h b/include/frnetlib/Packet.h
index 1727ad3..b8439d2 100644
--- a/include/frnetlib/Packet.h
+++ b/include/frnetlib/Packet.h
@@ -135,12 +135,14 @@ namespace fr
 
             //First extract the length
             *this >> length;
-            vec.resize(length);
+            vec.clear();
 
-            //Now take each of the elements out of the packet
-            for(auto &&iter : vec)
+            //Now take each of the elements out of the packet. Don't trust the length, there might be less elements than that
+            for(uint32_t a = 0; a < length; a++)
             {
-                *this >> iter;
+                vec.emplace_back();
+                auto &&elem = vec.back();
+                *this >> elem;
             }
             return *this;
         }
-- 
2.43.0


From 46125119ae96c98a25da3d3916675ff3a2095aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:47 +0000
Subject: [PATCH 21/41] fix: WebFrame::send left the payload masked

---
 include/frnetlib/WebFrame.h | 2 +-
 src/WebFrame.cpp            | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/frnetlib/WebFrame.h b/include/frnetlib/WebFrame.h
index 5137b98..e4f2ca8 100644
--- a/include/frnetlib/WebFrame.h
+++ b/include/frnetlib/WebFrame.h
@@ -126,7 +126,7 @@ namespace fr
         virtual bool is_client() const = 0;
 
     private:
-        mutable std::string payload;
+        std::string payload;
         Opcode opcode;
         uint8_t final;
         static uint32_t current_mask_key;
diff --git a/src/WebFrame.cpp b/src/WebFrame.cpp
index 7abe6c8..d83ad37 100644
--- a/src/WebFrame.cpp
+++ b/src/WebFrame.cpp
@@ -71,11 +71,14 @@ namespace fr
             //Encode the payload using the mask key
             for(size_t a = 0; a < payload.size(); ++a)
             {
-                payload[a] = payload[a] ^ mask_union.str_mask_key[a % 4];
+                buffer.push_back(payload[a] ^ mask_union.str_mask_key[a % 4]);
             }
         }
+        else
+        {
+            buffer.append(payload);
+        }
 
-        buffer.append(payload);
         size_t sent = 0;
         fr::Socket::Status state;
         do
-- 
2.43.0


From 38da5fe144ffefbbca740dfa09fb8db3035cf40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:47 +0000
Subject: [PATCH 22/41] fix: the WebFrame mask key was a data race between
 threads

---
 include/frnetlib/WebFrame.h | 3 ++-
 src/WebFrame.cpp            | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/frnetlib/WebFrame.h b/include/frnetlib/WebFrame.h
index e4f2ca8..d3c2501 100644
--- a/include/frnetlib/WebFrame.h
+++ b/include/frnetlib/WebFrame.h
@@ -7,6 +7,7 @@
 
 
 #include <ctime>
+#include <atomic>
 #include "Sendable.h"
 
 namespace fr
@@ -129,7 +130,7 @@ namespace fr
         std::string payload;
         Opcode opcode;
         uint8_t final;
-        static uint32_t current_mask_key;
+        static std::atomic<uint32_t> current_mask_key;
     };
 
     class ClientWebFrame : public fr::WebFrame {
diff --git a/src/WebFrame.cpp b/src/WebFrame.cpp
index d83ad37..044b12e 100644
--- a/src/WebFrame.cpp
+++ b/src/WebFrame.cpp
@@ -7,7 +7,7 @@
 
 namespace fr
 {
-    uint32_t WebFrame::current_mask_key = static_cast<uint32_t>(std::time(nullptr));
+    std::atomic<uint32_t> WebFrame::current_mask_key{static_cast<uint32_t>(std::time(nullptr))};
 
     WebFrame::WebFrame(WebFrame::Opcode type)
     : opcode(type),
-- 
2.43.0


From 322e10de2da822e4c8f7c0b86e7a5f3aec5804c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:47 +0000
Subject: [PATCH 23/41] fix: a 65535 byte WebFrame used the 64bit length form

---
 src/WebFrame.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/WebFrame.cpp b/src/WebFrame.cpp
index 044b12e..5085fd1 100644
--- a/src/WebFrame.cpp
+++ b/src/WebFrame.cpp
@@ -37,14 +37,14 @@ namespace fr
         if(payload.size() <= 125)
             first_2bytes |= payload.size();
         else
-            first_2bytes |= (payload.size() < std::numeric_limits<uint16_t>::max()) ? 126 : 127;
+            first_2bytes |= (payload.size() <= std::numeric_limits<uint16_t>::max()) ? 126 : 127;
         first_2bytes = htons(first_2bytes);
         buffer.append((char*)&first_2bytes, sizeof(first_2bytes));
 
         //Set additional payload bits if large enough
         if(payload.size() > 125)
         {
-            if(payload.size() < std::numeric_limits<uint16_t>::max()) //16bit length
+            if(payload.size() <= std::numeric_limits<uint16_t>::max()) //16bit length
             {
                 auto len = htons(static_cast<uint16_t>(payload.size()));
                 buffer.append((char*)&len, sizeof(len));
-- 
2.43.0


From f89429d52ebd2f77ae722b664897079455cac74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:47 +0000
Subject: [PATCH 24/41] fix: WebFrame::receive threw when a peer declared a
 huge frame

---
 src/WebFrame.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/WebFrame.cpp b/src/WebFrame.cpp
index 5085fd1..70da110 100644
--- a/src/WebFrame.cpp
+++ b/src/WebFrame.cpp
@@ -168,7 +168,14 @@ namespace fr
         }
 
         //Read payload
-        payload.resize(payload_length, '\0');
+        try
+        {
+            payload.resize(payload_length, '\0');
+        }
+        catch(const std::exception &) //Can't be held in memory
+        {
+            return Socket::Status::MaxPacketSizeExceeded;
+        }
         do
         {
             status = socket->receive_all(&payload[0], payload_length);
-- 
2.43.0


From 5ccaede376f0339a6d4a9b8c1a7b092c44d6c518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:47 +0000
Subject: [PATCH 25/41] fix: a WebSocket stayed connected after a failed
 handshake

---
 include/frnetlib/WebSocket.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/frnetlib/WebSocket.h b/include/frnetlib/WebSocket.h
index 20f8187..0dee1a6 100644
--- a/include/frnetlib/WebSocket.h
+++ b/include/frnetlib/WebSocket.h
@@ -59,13 +59,19 @@ namespace fr
 
             status = SocketType::send(request);
             if(status != Socket::Status::Success)
+            {
+                disconnect();
                 return status;
+            }
 
             //Receive the response
             HttpResponse response;
             status = SocketType::receive(response);
             if(status != Socket::Status::Success)
+            {
+                disconnect();
                 return status;
+            }
             if(response.get_status() != Http::RequestStatus::SwitchingProtocols)
             {
                 disconnect();
-- 
2.43.0


From 7ee985c1107b6fe8727cbb97ad73fcfe03af9c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:47 +0000
Subject: [PATCH 26/41] fix: a WebSocket server ignored that its handshake
 could not be sent

---
 include/frnetlib/WebSocket.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/frnetlib/WebSocket.h b/include/frnetlib/WebSocket.h
index 0dee1a6..d18346c 100644
--- a/include/frnetlib/WebSocket.h
+++ b/include/frnetlib/WebSocket.h
@@ -146,7 +146,8 @@ namespace fr
             response.header("Upgrade") = "websocket";
             response.header("Connection") = "Upgrade";
             response.header("Sec-WebSocket-Accept") = derived_key;
-            SocketType::send(response);
+            if(SocketType::send(response) != Socket::Status::Success)
+                throw std::runtime_error("Failed to send WebSock handshake");
         }
     };
 }
-- 
2.43.0


From 90a96c6856a770276114d98f8bbf2612ebe4d967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:02 +0000
Subject: [PATCH 27/41] fix: the server side of a WebSocket sent a masked close
 frame

---
 include/frnetlib/WebSocket.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/frnetlib/WebSocket.h b/include/frnetlib/WebSocket.h
index d18346c..a59a031 100644
--- a/include/frnetlib/WebSocket.h
+++ b/include/frnetlib/WebSocket.h
@@ -36,6 +36,7 @@ namespace fr
         Socket::Status connect(const std::string &address, const std::string &port, const std::string &path,  const std::vector<std::string> &ws_protocols, std::chrono::seconds timeout)
         {
             //Establish a connection using the parent class
+            server_side = false;
             Socket::Status status = SocketType::connect(address, port, timeout);
             if(status != Socket::Status::Success)
                 return status;
@@ -111,7 +112,9 @@ namespace fr
          */
         void disconnect() override
         {
-            ClientWebFrame frame;
+            ClientWebFrame client_frame;
+            ServerWebFrame server_frame;
+            WebFrame &frame = server_side ? static_cast<WebFrame&>(server_frame) : client_frame;
             frame.set_opcode(WebFrame::Opcode::Disconnect);
             if(SocketType::connected())
                 SocketType::send(frame);
@@ -148,7 +151,11 @@ namespace fr
             response.header("Sec-WebSocket-Accept") = derived_key;
             if(SocketType::send(response) != Socket::Status::Success)
                 throw std::runtime_error("Failed to send WebSock handshake");
+            server_side = true;
         }
+
+    private:
+        bool server_side = false; //Set once a client's connection has been taken over
     };
 }
 
-- 
2.43.0


From f6d926e7c74c6fe2f8261701e17bf0a5665cf2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:53 +0000
Subject: [PATCH 28/41] fix: a malformed chunk size let an exception escape
 from HttpResponse::parse

---
 src/HttpResponse.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/HttpResponse.cpp b/src/HttpResponse.cpp
index cda31b6..1bda109 100644
--- a/src/HttpResponse.cpp
+++ b/src/HttpResponse.cpp
@@ -54,17 +54,24 @@ namespace fr
         if(transfer_encodings.find(TransferEncoding::Chunked) != transfer_encodings.end())
         {
             //It's chunked, find the length of the chunk in hex!
-            unsigned int chunk_len = 1;
+            size_t chunk_len = 1;
             while(chunk_len > 0 && chunk_offset < body.size())
             {
                 auto length_end = body.find("\r\n", chunk_offset);
                 if(length_end == std::string::npos)
                     return fr::Socket::Status::NotEnoughData;
                 std::string hex_length = body.substr(chunk_offset, length_end - chunk_offset);
-                chunk_len = std::stoul(hex_length, nullptr, 16);
+                try
+                {
+                    chunk_len = std::stoul(hex_length, nullptr, 16);
+                }
+                catch(const std::exception &e)
+                {
+                    return fr::Socket::Status::ParseError;
+                }
 
                 //If the current chunk hasn't fully been received yet then ask for more data
-                if(body.size() - length_end < chunk_len + 4) //+4 because of the \r\n after the hex value and the chunk end
+                if(body.size() - length_end < 4 || body.size() - length_end - 4 < chunk_len) //4 because of the \r\n after the hex value and the chunk end
                     return fr::Socket::Status::NotEnoughData;
 
                 //Now we have the full chunk, erase the padding \r\n
-- 
2.43.0


From b33a44593013b76dec57e8a2802c9d609dcdf396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:53 +0000
Subject: [PATCH 29/41] fix: Base64::encode read past the end of inputs shorter
 than two bytes

---
 src/Base64.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Base64.cpp b/src/Base64.cpp
index 6ff83ae..3aa375a 100644
--- a/src/Base64.cpp
+++ b/src/Base64.cpp
@@ -15,7 +15,7 @@ namespace fr
         size_t a;
 
         //Do as many sets of 3 bytes as we can
-        for(a = 0; a < input.size() - 2; a += 3)
+        for(a = 0; a + 2 < input.size(); a += 3)
         {
             out += base64_table[(input[a] >> 2) & 0x3F]; //Store the first 6 bits of the first byte
             out += base64_table[((input[a] & 0x3) << 4) | (input[a + 1] & 0xF0) >> 4]; //Store the last 2 bits of the first byte combined with the first 4 bits of the second byte
-- 
2.43.0


From a04de1831abdf97cd15422839fe5b122b52509f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:53 +0000
Subject: [PATCH 30/41] fix: a URL object kept components of the previously
 parsed URL

---
 include/frnetlib/URL.h | 2 +-
 src/URL.cpp            | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/frnetlib/URL.h b/include/frnetlib/URL.h
index ebae4a7..eafdf46 100644
--- a/include/frnetlib/URL.h
+++ b/include/frnetlib/URL.h
@@ -218,7 +218,7 @@ namespace fr
         }
 
         //State
-        Scheme scheme;
+        Scheme scheme = Scheme::Unknown;
         std::string host;
         std::string port;
         std::string path;
diff --git a/src/URL.cpp b/src/URL.cpp
index 0642060..0716601 100644
--- a/src/URL.cpp
+++ b/src/URL.cpp
@@ -26,9 +26,15 @@ namespace fr
     }
 
 
-    void URL::parse(const std::string &url)
+    void URL::parse(const std::string &full_url)
     {
+        const std::string url = full_url; //A copy, as it could be one of the components cleared below
         scheme = Scheme::Unknown;
+        host.clear();
+        port.clear();
+        path.clear();
+        query.clear();
+        fragment.clear();
         size_t parse_offset = 0;
         size_t pos = 0;
 
-- 
2.43.0


From 56ef9017bc5d2835aca5a2540b9d16bf9ab6fcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:53 +0000
Subject: [PATCH 31/41] fix: the ftp scheme had no name

---
 src/URL.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/URL.cpp b/src/URL.cpp
index 0716601..0f0e418 100644
--- a/src/URL.cpp
+++ b/src/URL.cpp
@@ -13,7 +13,7 @@ namespace fr
     std::unordered_map<std::string, URL::Scheme> URL::scheme_string_map = {
             {"http",    URL::HTTP},
             {"https",   URL::HTTPS},
-            {"sftp",    URL::FTP},
+            {"ftp",     URL::FTP},
             {"mailto",  URL::MAILTO},
             {"irc",     URL::IRC},
             {"sftp",    URL::SFTP},
-- 
2.43.0


From c9774355c93a51fcaa25e831711a34df97c3e34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:53 +0000
Subject: [PATCH 32/41] fix: a request with POST parameters had no or a second
 Content-Length

---
 src/HttpRequest.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HttpRequest.cpp b/src/HttpRequest.cpp
index 696df9c..a0d90a6 100644
--- a/src/HttpRequest.cpp
+++ b/src/HttpRequest.cpp
@@ -147,7 +147,7 @@ namespace fr
             request += "Connection: keep-alive\r\n";
         if(header_data.find("host") == header_data.end())
             request += "Host: " + host + "\r\n";
-        if(!body.empty())
+        if(header_data.find("content-length") == header_data.end() && (!body.empty() || !post_string.empty()))
             request += "Content-Length: " + std::to_string(body.size() + post_string.size()) + "\r\n";
 
         //Add in space
-- 
2.43.0


From 1afc7271d1a8e5a008650af6a9a5a7b0bd849e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:53 +0000
Subject: [PATCH 33/41] fix: the POST list was ended by an iterator of another
 map

---
 src/HttpRequest.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HttpRequest.cpp b/src/HttpRequest.cpp
index a0d90a6..6b7b912 100644
--- a/src/HttpRequest.cpp
+++ b/src/HttpRequest.cpp
@@ -134,7 +134,7 @@ namespace fr
         for(auto iter = post_data.begin(); iter != post_data.end();)
         {
             post_string += iter->first + "=" + iter->second;
-            if(++iter != get_data.end())
+            if(++iter != post_data.end())
                 post_string += "&";
         }
         if(!post_string.empty())
-- 
2.43.0


From 4456a232865db5607315c0c6da31fbfeb97b23c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:53 +0000
Subject: [PATCH 34/41] fix: the MIME type lookup could modify its shared table

---
 src/Http.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Http.cpp b/src/Http.cpp
index be924c9..f7fbaee 100644
--- a/src/Http.cpp
+++ b/src/Http.cpp
@@ -270,7 +270,7 @@ namespace fr
 
     const std::string &Http::get_mimetype(const std::string &filename)
     {
-        static std::unordered_map<std::string, std::string> known_mimetypes = {
+        static const std::unordered_map<std::string, std::string> known_mimetypes = {
                 {".x3d", "application/vnd.hzn-3d-crossword"},
                 {".3gp", "video/3gpp"},
                 {".3g2", "video/3gpp2"},
@@ -974,7 +974,7 @@ namespace fr
         //Find it
         auto iter = known_mimetypes.find(extention);
         if(iter == known_mimetypes.end())
-            return known_mimetypes[".bin"];
+            return known_mimetypes.at(".bin");
         return iter->second;
     }
 
-- 
2.43.0


From 1cfd7e101726460784a9fe537ee7337774322d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:53 +0000
Subject: [PATCH 35/41] fix: extracting a map from a packet kept the old
 entries of the target

---
 include/frnetlib/Packet.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/frnetlib/Packet.h b/include/frnetlib/Packet.h
index b8439d2..541c6c9 100644
--- a/include/frnetlib/Packet.h
+++ b/include/frnetlib/Packet.h
@@ -176,6 +176,8 @@ namespace fr
             //First extract the length
             *this >> length;
 
+            m.clear();
+
             //Now take each of the elements out of the packet
             for(uint32_t a = 0; a < length; a++)
             {
@@ -216,6 +218,8 @@ namespace fr
             //First extract the length
             *this >> length;
 
+            m.clear();
+
             //Now take each of the elements out of the packet
             for(uint32_t a = 0; a < length; a++)
             {
-- 
2.43.0


From a2c54d91122a36f3b16662eb33ab279f9993dadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:28 +0000
Subject: [PATCH 36/41] fix: URL components were split at delimiters of later
 components

---
 src/URL.cpp | 71 ++++++++++++++++++++---------------------------------
 1 file changed, 26 insertions(+), 45 deletions(-)

diff --git a/src/URL.cpp b/src/URL.cpp
index 0f0e418..a8fe7b4 100644
--- a/src/URL.cpp
+++ b/src/URL.cpp
@@ -40,38 +40,33 @@ namespace fr
 
         //Check to see if a scheme exists
         pos = url.find("://");
-        if(pos != std::string::npos)
+        if(pos != std::string::npos && url.find_first_of("/?#") == pos + 1)
         {
             auto scheme_pos = scheme_string_map.find(to_lower(url.substr(0, pos)));
             scheme = (scheme_pos == scheme_string_map.end()) ? URL::Unknown : scheme_pos->second;
             parse_offset = pos + 3; // skip the ://
         }
 
+        //The host and port end where the path, query or fragment begins
+        size_t host_end = url.find_first_of("/?#", parse_offset);
+        host_end = (host_end == std::string::npos) ? url.size() : host_end;
+
         //Check to see if there's a port
         pos = url.find(':', parse_offset);
-        if(pos != std::string::npos) //A port is provided
+        if(pos < host_end) //A port is provided
         {
             //Store host
             host = url.substr(parse_offset, pos - parse_offset);
-            parse_offset += host.size();
-
-            //Find end of port
-            size_t port_end = url.find('/', parse_offset);
-            port_end = (port_end == std::string::npos) ? url.size() : port_end;
-            port = url.substr(pos + 1, port_end - pos - 1);
-            parse_offset = port_end + 1;
+            port = url.substr(pos + 1, host_end - pos - 1);
+            parse_offset = host_end;
         }
         else //There's no port
         {
             //Store host
-            pos = url.find('/', parse_offset);
-            pos = (pos != std::string::npos) ? pos : url.find('?', parse_offset);
-            pos = (pos != std::string::npos) ? pos : url.find('#', parse_offset);
-            if(pos != std::string::npos || parse_offset != 0)
+            if(host_end != url.size() || parse_offset != 0)
             {
-                pos = (pos != std::string::npos) ? pos : url.size();
-                host = url.substr(parse_offset, pos - parse_offset);
-                parse_offset = pos + 1;
+                host = url.substr(parse_offset, host_end - parse_offset);
+                parse_offset = host_end;
             }
 
             //Guess port based on scheme, if it's not explicitly provided.
@@ -97,41 +92,27 @@ namespace fr
             }
         }
 
-        //Exit if done
-        if(parse_offset >= url.size())
-            return;
-
-        //Extract the path
-        pos = url.find('?', parse_offset);
-        if(pos != std::string::npos)
-        {
-            path.append("/").append(url.substr(parse_offset, pos - parse_offset));
-            parse_offset = pos + 1;
-        }
+        //Extract the fragment
+        size_t end = url.find('#', parse_offset);
+        if(end != std::string::npos)
+            fragment = url.substr(end + 1, url.size() - end - 1);
         else
-        {
-            pos = url.find('#', parse_offset);
-            pos = (pos != std::string::npos) ? pos : url.find('?', parse_offset);
-            pos = (pos != std::string::npos) ? pos : url.size();
-            path.append("/").append(url.substr(parse_offset, pos - parse_offset));
-            parse_offset = pos + 1;
-        }
+            end = url.size();
 
         //Extract the query
-        pos = url.find('#', parse_offset - 1);
-        if(pos != std::string::npos)
-        {
-            if(pos + 1 != parse_offset)
-                query = url.substr(parse_offset, pos - parse_offset);
-            fragment = url.substr(pos + 1, url.size() - pos - 1);
-        }
-        else
+        pos = url.find('?', parse_offset);
+        if(pos < end)
         {
-            if(parse_offset >= url.size())
-                return;
-            query = url.substr(parse_offset, url.size() - parse_offset);
+            query = url.substr(pos + 1, end - pos - 1);
+            end = pos;
         }
 
+        //Extract the path
+        if(parse_offset >= end)
+            return;
+        if(url[parse_offset] != '/')
+            path.append("/");
+        path.append(url.substr(parse_offset, end - parse_offset));
     }
 
     URL::Scheme URL::string_to_scheme(const std::string &scheme)
-- 
2.43.0


From b1628b566dcd468b5fe4df021d4338bf37526460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:32 +0000
Subject: [PATCH 37/41] fix: remove() of a selector member that gave its
 descriptor away leaves the kernel registration behind

---
 include/frnetlib/SocketSelector.h |  1 +
 src/SocketSelector.cpp            | 14 ++++++++++----
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/frnetlib/SocketSelector.h b/include/frnetlib/SocketSelector.h
index 047c1f0..163bbab 100644
--- a/include/frnetlib/SocketSelector.h
+++ b/include/frnetlib/SocketSelector.h
@@ -71,6 +71,7 @@ namespace fr
         };
         int epoll_fd;
         std::unordered_map<uintptr_t, Opaque> added_sockets;
+        std::unordered_map<int32_t, uintptr_t> registered; //Which socket a descriptor is registered for
 #endif
     };
 }
diff --git a/src/SocketSelector.cpp b/src/SocketSelector.cpp
index 6405958..e50cd7b 100644
--- a/src/SocketSelector.cpp
+++ b/src/SocketSelector.cpp
@@ -50,6 +50,7 @@ namespace fr
             added_sockets.erase(added_iter.first);
             throw std::runtime_error("Failed to add socket: " + std::to_string(errno));
         }
+        registered[descriptor] = added_iter.first->first;
     }
 
     std::vector<std::pair<std::shared_ptr<fr::SocketDescriptor>, void *>>
@@ -83,11 +84,16 @@ namespace fr
             return nullptr;
         }
 
-        //A descriptor which has been closed since has already been removed by the kernel, and its number may be another socket's now
-        bool still_open = iter->second.descriptor == iter->second.socket->get_socket_descriptor();
-        if(still_open && epoll_ctl(epoll_fd, EPOLL_CTL_DEL, iter->second.descriptor, nullptr) < 0 && errno != EBADF && errno != ENOENT)
+        //A descriptor which has been closed since has already been removed by the kernel, and its number may have been added again for
+        //another socket. Otherwise the registration is this socket's, even if it no longer owns the descriptor.
+        auto registration = registered.find(iter->second.descriptor);
+        if(registration != registered.end() && registration->second == iter->first)
         {
-            throw std::runtime_error("Failed to remove socket: " + std::to_string(iter->second.descriptor) + ". Errno: " + std::to_string(errno));
+            if(epoll_ctl(epoll_fd, EPOLL_CTL_DEL, iter->second.descriptor, nullptr) < 0 && errno != EBADF && errno != ENOENT)
+            {
+                throw std::runtime_error("Failed to remove socket: " + std::to_string(iter->second.descriptor) + ". Errno: " + std::to_string(errno));
+            }
+            registered.erase(registration);
         }
 
         void *opaque = iter->second.opaque;
-- 
2.43.0


From c14a8bd0fec338036359207f1f8b50a6164f263e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:54 +0000
Subject: [PATCH 38/41] fix: SSLSocket::connect ignored the IP version set with
 set_inet_version()

---
 src/SSLSocket.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/SSLSocket.cpp b/src/SSLSocket.cpp
index 14acd21..97ddc66 100644
--- a/src/SSLSocket.cpp
+++ b/src/SSLSocket.cpp
@@ -188,6 +188,7 @@ namespace fr
         //Open the descriptor, and then steal it. This is a hack.
         {
             fr::TcpSocket socket;
+            socket.set_inet_version(ai_family == AF_INET ? Socket::IP::v4 : ai_family == AF_INET6 ? Socket::IP::v6 : Socket::IP::any);
             auto ret = socket.connect(address, port, timeout);
             if(ret != fr::Socket::Status::Success)
                 return ret;
-- 
2.43.0


From 1f50199dbd010911899ef3872b7873f85f003c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:54 +0000
Subject: [PATCH 39/41] fix: CA certificates in PEM format could not be loaded
 from memory

---
 include/frnetlib/SSLContext.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/frnetlib/SSLContext.h b/include/frnetlib/SSLContext.h
index 3f2c364..3f0e9dd 100644
--- a/include/frnetlib/SSLContext.h
+++ b/include/frnetlib/SSLContext.h
@@ -60,7 +60,8 @@ namespace fr
          */
         bool load_ca_certs_from_memory(const std::string &ca_certs)
         {
-            return mbedtls_x509_crt_parse(&cacert, (const unsigned char *)ca_certs.c_str(), ca_certs.size()) == 0;
+            //PEM is only recognised if the size includes the terminator
+            return mbedtls_x509_crt_parse(&cacert, (const unsigned char *)ca_certs.c_str(), ca_certs.size() + 1) == 0;
         }
 
         /*!
-- 
2.43.0


From 706cb5ec6edad2621922c14004050c63001abee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:20 +0000
Subject: [PATCH 40/41] fix: TcpSocket::connect wrote out of bounds for
 descriptors above FD_SETSIZE

---
 src/TcpSocket.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/TcpSocket.cpp b/src/TcpSocket.cpp
index c7ae079..23d3a68 100644
--- a/src/TcpSocket.cpp
+++ b/src/TcpSocket.cpp
@@ -3,8 +3,13 @@
 //
 
 #include <iostream>
+#include <limits>
+#include <algorithm>
 #include <frnetlib/SocketSelector.h>
 #include <frnetlib/TcpSocket.h>
+#ifndef _WIN32
+#include <poll.h>
+#endif
 #define DEFAULT_SOCKET_TIMEOUT 20
 
 namespace fr
@@ -168,6 +173,7 @@ namespace fr
             }
 
             //Wait for the socket to do something/expire
+#ifdef _WIN32
             timeval tv = {};
             tv.tv_sec = timeout.count() == 0 ? DEFAULT_SOCKET_TIMEOUT : timeout.count();
             tv.tv_usec = 0;
@@ -175,6 +181,15 @@ namespace fr
             FD_ZERO(&set);
             FD_SET(socket_descriptor, &set);
             ret = select(socket_descriptor + 1, nullptr, &set, nullptr, &tv);
+#else
+            //select() can't wait for descriptors above FD_SETSIZE
+            const int64_t max_seconds = std::numeric_limits<int>::max() / 1000;
+            int64_t seconds = timeout.count() == 0 ? DEFAULT_SOCKET_TIMEOUT : timeout.count();
+            pollfd poll_descriptor = {};
+            poll_descriptor.fd = socket_descriptor;
+            poll_descriptor.events = POLLOUT;
+            ret = poll(&poll_descriptor, 1, static_cast<int>(std::max<int64_t>(0, std::min(seconds, max_seconds)) * 1000));
+#endif
             if(ret <= 0)
                 continue;
 
-- 
2.43.0


From 252d1cde5cdd6e06233f77ab6334734fb9a502e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:16 +0000
Subject: [PATCH 41/41] fix: SocketSelector::wait misread timeouts that do not
 fit an int

---
 src/SocketSelector.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/SocketSelector.cpp b/src/SocketSelector.cpp
index e50cd7b..10a2b79 100644
--- a/src/SocketSelector.cpp
+++ b/src/SocketSelector.cpp
@@ -4,6 +4,8 @@
 
 #include <thread>
 #include <mutex>
+#include <limits>
+#include <algorithm>
 #include "frnetlib/SocketSelector.h"
 
 //Linux EPOLL implementation
@@ -57,7 +59,8 @@ namespace fr
     SocketSelector::wait(std::chrono::milliseconds timeout)
     {
         static thread_local epoll_event events[100];
-        int event_count = epoll_wait(epoll_fd, events, 100, timeout.count());
+        auto max_timeout = std::chrono::milliseconds(std::numeric_limits<int>::max());
+        int event_count = epoll_wait(epoll_fd, events, 100, timeout.count() < 0 ? -1 : static_cast<int>(std::min(timeout, max_timeout).count()));
         if(event_count < 0)
         {
             if(errno == EINTR)
-- 
2.43.0

