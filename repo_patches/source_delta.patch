From b6a6770fcff62c79f676d23e5e45d6a5fdab40ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:59 +0000
Subject: [PATCH 01/21] fix: keep the start of an oversized MBAP frame instead
 of delivering stale bytes

copy_from copies nothing when the source is longer than the destination, so the
chunk of a frame which crossed the end of the 260 byte buffer was dropped as a
whole and the message was made of bytes of an earlier frame.
---
 lib/src/messages/mbap/MbapParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/messages/mbap/MbapParser.cpp b/lib/src/messages/mbap/MbapParser.cpp
index c0f306e..ca5fa1c 100644
--- a/lib/src/messages/mbap/MbapParser.cpp
+++ b/lib/src/messages/mbap/MbapParser.cpp
@@ -34,7 +34,7 @@ void MbapParser::parse(ser4cpp::rseq_t data)
         auto read = data.take(m_num_bytes_to_read);
         data.advance(read.length());
         m_num_bytes_to_read -= read.length();
-        m_buffer_view.copy_from(read);
+        m_buffer_view.copy_from(read.take(m_buffer_view.length()));
 
         if(m_num_bytes_to_read == 0)
         {
-- 
2.43.0


From fc0210668b20b52d74b37317b04f405c2f0efd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:59 +0000
Subject: [PATCH 02/21] fix: deliver an MBAP frame without a PDU as soon as its
 header is received

It was only completed by the first byte of the following frame's data, which
postponed it (possibly forever).
---
 lib/src/messages/mbap/MbapParser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/src/messages/mbap/MbapParser.cpp b/lib/src/messages/mbap/MbapParser.cpp
index ca5fa1c..7e8e142 100644
--- a/lib/src/messages/mbap/MbapParser.cpp
+++ b/lib/src/messages/mbap/MbapParser.cpp
@@ -72,6 +72,12 @@ void MbapParser::find_body_size()
 
     m_num_bytes_to_read = length - 1;
     m_reading_body = true;
+
+    // A frame without a PDU is complete as soon as its header is
+    if(m_num_bytes_to_read == 0)
+    {
+        send_data();
+    }
 }
 
 void MbapParser::send_data()
-- 
2.43.0


From 3ff0f4560d9286fd857a74c5ade05e657ab83959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:09 +0000
Subject: [PATCH 03/21] fix: adding a session for a known unit replaces the old
 session

As documented in IServerChannel::add_session; insert kept the old one.
---
 lib/src/server/channel/ServerChannelTcp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/server/channel/ServerChannelTcp.cpp b/lib/src/server/channel/ServerChannelTcp.cpp
index ee2dc43..19b336e 100644
--- a/lib/src/server/channel/ServerChannelTcp.cpp
+++ b/lib/src/server/channel/ServerChannelTcp.cpp
@@ -92,7 +92,7 @@ void ServerChannelTcp::add_session(const UnitIdentifier& unit_identifier, std::s
     m_executor->post([=, self=shared_from_this()]() {
         if(m_is_shutdown) return;
 
-        m_sessions.insert({unit_identifier, session});
+        m_sessions[unit_identifier] = session;
     });
 }
 
-- 
2.43.0


From e3dc8f7199784e415542377850fe3391239a91a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:09 +0000
Subject: [PATCH 04/21] fix: memory parity error is exception code 8

The exception response carried code 7, which parse_exception_type does not
recognise (it expects 8, as does the specification).
---
 lib/include/modbus/messages/ExceptionType.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/include/modbus/messages/ExceptionType.h b/lib/include/modbus/messages/ExceptionType.h
index 4823050..b480209 100644
--- a/lib/include/modbus/messages/ExceptionType.h
+++ b/lib/include/modbus/messages/ExceptionType.h
@@ -82,13 +82,13 @@ enum class ExceptionType
     ServerDeviceBusy = 0x06,
 
     /**
-     * @cpp 0x07 @ce Memory parity error
+     * @cpp 0x08 @ce Memory parity error
      *
      * The extended file area failed to pass a consistency check.
      *
      * Used with function codes @cpp 0x20 @ce and @cpp 0x21 @ce (not supported by this library)
      */
-    MemoryParityError = 0x07,
+    MemoryParityError = 0x08,
 
     /**
      * @cpp 0x0A @ce Gateway path unavailable
-- 
2.43.0


From 55c135e329e55aca22f3377afee5865753803e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:25 +0000
Subject: [PATCH 05/21] fix: reject a register response whose byte count does
 not match its data

ReadBitsResponseImpl already does; here an even byte count was accepted
whatever its value.
---
 lib/src/messages/ReadRegistersResponseImpl.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/messages/ReadRegistersResponseImpl.cpp b/lib/src/messages/ReadRegistersResponseImpl.cpp
index 7a45f07..8d8b324 100644
--- a/lib/src/messages/ReadRegistersResponseImpl.cpp
+++ b/lib/src/messages/ReadRegistersResponseImpl.cpp
@@ -84,6 +84,10 @@ ReadRegistersResponseImpl<function_code, request_t, response_t>::parse(const Rea
     {
         return Expected<response_t>::from_exception(MalformedModbusResponseException{"Response should contain an even number of register bytes."});
     }
+    if(view.length() != length)
+    {
+        return Expected<response_t>::from_exception(MalformedModbusResponseException{"Response byte count does not match the number of bytes received."});
+    }
 
     // Check that each number of registers match
     if(view.length() != 2 * req.get_request().qty_of_registers)
-- 
2.43.0


From 5dddce0e0f3a1dad93e4c619b5d8e38f6240e067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:41 +0000
Subject: [PATCH 06/21] fix: printing an identifier no longer changes the
 format of the stream

Numbers printed to the same stream afterwards came out in hexadecimal.
---
 lib/src/TransactionIdentifier.cpp | 15 +++++++++++----
 lib/src/UnitIdentifier.cpp        | 15 +++++++++++----
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/lib/src/TransactionIdentifier.cpp b/lib/src/TransactionIdentifier.cpp
index c194388..15839c8 100644
--- a/lib/src/TransactionIdentifier.cpp
+++ b/lib/src/TransactionIdentifier.cpp
@@ -56,10 +56,17 @@ TransactionIdentifier TransactionIdentifier::operator++(int)
 
 std::ostream& operator<<(std::ostream& stream, const TransactionIdentifier& transaction_id)
 {
-    return stream << "0x"
-                  << std::uppercase
-                  << std::setw(4) << std::setfill('0')
-                  << std::hex << (unsigned int)transaction_id.get_value();
+    const auto flags = stream.flags();
+    const auto fill = stream.fill();
+
+    stream << "0x"
+           << std::uppercase
+           << std::setw(4) << std::setfill('0')
+           << std::hex << (unsigned int)transaction_id.get_value();
+
+    stream.flags(flags);
+    stream.fill(fill);
+    return stream;
 }
 
 } // namespace modbus
diff --git a/lib/src/UnitIdentifier.cpp b/lib/src/UnitIdentifier.cpp
index dbdb362..ae84a70 100644
--- a/lib/src/UnitIdentifier.cpp
+++ b/lib/src/UnitIdentifier.cpp
@@ -23,10 +23,17 @@ namespace modbus
 
 std::ostream& operator<<(std::ostream& stream, const UnitIdentifier& unit_id)
 {
-    return stream << "0x"
-                  << std::uppercase
-                  << std::setw(2) << std::setfill('0')
-                  << std::hex << (unsigned int)unit_id.get_value();
+    const auto flags = stream.flags();
+    const auto fill = stream.fill();
+
+    stream << "0x"
+           << std::uppercase
+           << std::setw(2) << std::setfill('0')
+           << std::hex << (unsigned int)unit_id.get_value();
+
+    stream.flags(flags);
+    stream.fill(fill);
+    return stream;
 }
 
 } // namespace modbus
-- 
2.43.0


From 3ce0aa36a93bf40b6d4a73ca7c87e9a4b324b13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:41 +0000
Subject: [PATCH 07/21] fix: server replies are queued and written whole

A reply which was still being written was freed and replaced by the next one
when requests were pipelined, and whatever async_send left unwritten was lost.
---
 .../channel/AsioServerTcpConnection.cpp       | 24 ++++++++++++-------
 .../server/channel/AsioServerTcpConnection.h  |  3 ++-
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/lib/src/server/channel/AsioServerTcpConnection.cpp b/lib/src/server/channel/AsioServerTcpConnection.cpp
index ff301bf..3c8587c 100644
--- a/lib/src/server/channel/AsioServerTcpConnection.cpp
+++ b/lib/src/server/channel/AsioServerTcpConnection.cpp
@@ -46,8 +46,13 @@ void AsioServerTcpConnection::send(const ser4cpp::rseq_t& data)
 {
     if(m_is_shutdown) return;
 
-    m_write_buffer = std::make_unique<ser4cpp::Buffer>(data);
-    send_buffer();
+    m_write_queue.push_back(std::make_unique<ser4cpp::Buffer>(data));
+
+    // Only one write at a time, the others wait in the queue
+    if(m_write_queue.size() == 1)
+    {
+        send_buffer();
+    }
 }
 
 void AsioServerTcpConnection::close()
@@ -135,7 +140,8 @@ void AsioServerTcpConnection::write_handler(const std::error_code& ec, std::size
 
     m_logger->debug("Sent {} bytes", bytes_transferred);
 
-    m_write_buffer = nullptr;
+    m_write_queue.pop_front();
+    send_buffer();
 
     if(m_connection_listener)
     {
@@ -160,12 +166,14 @@ void AsioServerTcpConnection::send_buffer()
 {
     if(m_is_shutdown) return;
 
-    if(m_write_buffer && m_is_connected)
+    if(!m_write_queue.empty() && m_is_connected)
     {
-        m_tcp_socket.async_send(asio::buffer(m_write_buffer->as_rslice(), m_write_buffer->length()),
-                                m_executor->wrap(std::bind(&AsioServerTcpConnection::write_handler,
-                                                        std::dynamic_pointer_cast<AsioServerTcpConnection>(shared_from_this()),
-                                                        _1, _2)));
+        const auto& buffer = m_write_queue.front();
+        asio::async_write(m_tcp_socket,
+                          asio::buffer(buffer->as_rslice(), buffer->length()),
+                          m_executor->wrap(std::bind(&AsioServerTcpConnection::write_handler,
+                                                     std::dynamic_pointer_cast<AsioServerTcpConnection>(shared_from_this()),
+                                                     _1, _2)));
     }
 }
 
diff --git a/lib/src/server/channel/AsioServerTcpConnection.h b/lib/src/server/channel/AsioServerTcpConnection.h
index f5570ed..1f06c98 100644
--- a/lib/src/server/channel/AsioServerTcpConnection.h
+++ b/lib/src/server/channel/AsioServerTcpConnection.h
@@ -17,6 +17,7 @@
 #define MODBUS_ASIOSERVERTCPCONNECTION_H
 
 #include <array>
+#include <deque>
 #include "exe4cpp/asio/StrandExecutor.h"
 #include "ser4cpp/container/Buffer.h"
 
@@ -62,7 +63,7 @@ private:
     bool m_is_shutdown;
     bool m_is_connected;
     std::array<uint8_t, 4096> m_read_buffer;
-    std::unique_ptr<ser4cpp::Buffer> m_write_buffer;
+    std::deque<std::unique_ptr<ser4cpp::Buffer>> m_write_queue;
 
     std::shared_ptr<IConnectionListener> m_connection_listener;
 };
-- 
2.43.0


From cce2c08cbb414e1125b67e8ce8ab1588f0749729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:06 +0000
Subject: [PATCH 08/21] fix: the server keeps accepting connections after an
 accept error

An error such as running out of file descriptors ended the accept loop for good,
and decremented the connection count for a connection that was not counted.
---
 lib/src/server/channel/AsioServer.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/src/server/channel/AsioServer.cpp b/lib/src/server/channel/AsioServer.cpp
index 32e1cd0..e25a226 100644
--- a/lib/src/server/channel/AsioServer.cpp
+++ b/lib/src/server/channel/AsioServer.cpp
@@ -84,7 +84,15 @@ void AsioServer::handle_accept(std::shared_ptr<AsioServerTcpConnection> connecti
 
     if(ec)
     {
-        remove_connection(connection);
+        m_logger->error("Accept error: {}", ec.message());
+
+        // This connection was never counted
+        m_connections.remove(connection);
+
+        // Try again a bit later, the cause may be temporary (e.g. out of file descriptors)
+        m_executor->start(std::chrono::milliseconds(100), [this, self=shared_from_this()] {
+            start_accept();
+        });
         return;
     }
 
-- 
2.43.0


From 5f232bfc81fb8df262c7cae1b8935f51aa6e37dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:42 +0000
Subject: [PATCH 09/21] fix: client requests are written whole, and stale
 completions are ignored

The buffer being written was freed when the next request was sent before the
write completed (after a timeout, for instance), and whatever async_send left
unwritten was lost. The completion of an operation which was cancelled by
closing the connection could fail the requests of the next connection.
---
 .../channel/AsioClientTcpConnection.cpp       | 83 +++++++++++++------
 .../client/channel/AsioClientTcpConnection.h  | 11 ++-
 2 files changed, 65 insertions(+), 29 deletions(-)

diff --git a/lib/src/client/channel/AsioClientTcpConnection.cpp b/lib/src/client/channel/AsioClientTcpConnection.cpp
index f9bbc6e..938a655 100644
--- a/lib/src/client/channel/AsioClientTcpConnection.cpp
+++ b/lib/src/client/channel/AsioClientTcpConnection.cpp
@@ -34,7 +34,9 @@ AsioClientTcpConnection::AsioClientTcpConnection(std::shared_ptr<Logger> logger,
           m_resolver{*executor->get_context()},
           m_tcp_socket{*executor->get_context()},
           m_is_shutdown{false},
-          m_current_connection_status{ConnectionStatus::NotConnected}
+          m_current_connection_status{ConnectionStatus::NotConnected},
+          m_num_bytes_written{0},
+          m_connection_id{0}
 {
 
 }
@@ -48,7 +50,7 @@ void AsioClientTcpConnection::send(const ser4cpp::rseq_t& data)
 {
     if(m_is_shutdown) return;
     
-    m_write_buffer = std::make_unique<ser4cpp::Buffer>(data);
+    m_next_write_buffer = std::make_shared<ser4cpp::Buffer>(data);
 
     if(m_current_connection_status == ConnectionStatus::NotConnected)
     {
@@ -90,16 +92,7 @@ void AsioClientTcpConnection::close()
     m_executor->post([=, self = shared_from_this()] () {
         if(m_is_shutdown) return;
 
-        m_current_connection_status = ConnectionStatus::NotConnected;
-
-        if(m_tcp_socket.is_open())
-        {
-            m_logger->info("Closing connection");
-
-            std::error_code ec;
-            m_tcp_socket.shutdown(asio::ip::tcp::socket::shutdown_both, ec);
-            m_tcp_socket.close(ec);
-        }
+        close_socket();
     });
 }
 
@@ -139,7 +132,7 @@ void AsioClientTcpConnection::connect_handler(const asio::error_code& ec)
     if(ec)
     {
         m_logger->error("Connection error: {}", ec.message());
-        close();
+        close_socket();
         send_error(ec.message());
         return;
     }
@@ -151,21 +144,21 @@ void AsioClientTcpConnection::connect_handler(const asio::error_code& ec)
     begin_read();
 }
 
-void AsioClientTcpConnection::read_handler(const asio::error_code& ec, std::size_t bytes_transferred)
+void AsioClientTcpConnection::read_handler(unsigned int connection_id, const asio::error_code& ec, std::size_t bytes_transferred)
 {
-    if(m_is_shutdown) return;
+    if(m_is_shutdown || connection_id != m_connection_id) return;
 
     if(ec)
     {
         if(ec == asio::error::misc_errors::eof)
         {
             m_logger->info("Connection gracefully closed by peer.");
-            close();
+            close_socket();
         }
         else
         {
             m_logger->error("Read error: {}", ec.message());
-            close();
+            close_socket();
             send_error(ec.message());
         }
         return;
@@ -182,21 +175,30 @@ void AsioClientTcpConnection::read_handler(const asio::error_code& ec, std::size
     begin_read();
 }
 
-void AsioClientTcpConnection::write_handler(const std::error_code& ec, std::size_t bytes_transferred)
+void AsioClientTcpConnection::write_handler(unsigned int connection_id, const std::error_code& ec, std::size_t bytes_transferred)
 {
-    if(m_is_shutdown) return;
+    if(m_is_shutdown || connection_id != m_connection_id) return;
 
     if(ec)
     {
         m_logger->error("Write error: {}", ec.message());
-        close();
+        close_socket();
         send_error(ec.message());
         return;
     }
 
     m_logger->debug("Sent {} bytes", bytes_transferred);
 
+    // Write what is left
+    m_num_bytes_written += bytes_transferred;
+    if(m_num_bytes_written < m_write_buffer->length())
+    {
+        begin_write();
+        return;
+    }
+
     m_write_buffer = nullptr;
+    send_buffer();
 
     auto connection_listener = m_connection_listener.lock();
     if(connection_listener)
@@ -205,6 +207,25 @@ void AsioClientTcpConnection::write_handler(const std::error_code& ec, std::size
     }
 }
 
+void AsioClientTcpConnection::close_socket()
+{
+    m_current_connection_status = ConnectionStatus::NotConnected;
+
+    // Completions of the operations of this connection are ignored from now on
+    ++m_connection_id;
+    m_write_buffer = nullptr;
+    m_next_write_buffer = nullptr;
+
+    if(m_tcp_socket.is_open())
+    {
+        m_logger->info("Closing connection");
+
+        std::error_code ec;
+        m_tcp_socket.shutdown(asio::ip::tcp::socket::shutdown_both, ec);
+        m_tcp_socket.close(ec);
+    }
+}
+
 void AsioClientTcpConnection::begin_read()
 {
     if(m_is_shutdown) return;
@@ -212,22 +233,32 @@ void AsioClientTcpConnection::begin_read()
     m_tcp_socket.async_read_some(asio::buffer(m_read_buffer, m_read_buffer.size()),
                                  m_executor->wrap(std::bind(&AsioClientTcpConnection::read_handler,
                                                          std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this()),
-                                                         _1, _2)));
+                                                         m_connection_id, _1, _2)));
 }
 
 void AsioClientTcpConnection::send_buffer()
 {
     if(m_is_shutdown) return;
 
-    if(m_write_buffer)
+    // Only one write at a time
+    if(!m_write_buffer && m_next_write_buffer)
     {
-        m_tcp_socket.async_send(asio::buffer(m_write_buffer->as_rslice(), m_write_buffer->length()),
-                                m_executor->wrap(std::bind(&AsioClientTcpConnection::write_handler,
-                                                        std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this()),
-                                                        _1, _2)));
+        m_write_buffer = std::move(m_next_write_buffer);
+        m_num_bytes_written = 0;
+        begin_write();
     }
 }
 
+void AsioClientTcpConnection::begin_write()
+{
+    auto data = m_write_buffer->as_rslice();
+    data.advance(m_num_bytes_written);
+    m_tcp_socket.async_send(asio::buffer(data, data.length()),
+                            m_executor->wrap(std::bind(&AsioClientTcpConnection::write_handler,
+                                                    std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this()),
+                                                    m_connection_id, _1, _2)));
+}
+
 void AsioClientTcpConnection::send_error(const std::string& message)
 {
     if(m_is_shutdown) return;
diff --git a/lib/src/client/channel/AsioClientTcpConnection.h b/lib/src/client/channel/AsioClientTcpConnection.h
index 2c2494e..ae84bf8 100644
--- a/lib/src/client/channel/AsioClientTcpConnection.h
+++ b/lib/src/client/channel/AsioClientTcpConnection.h
@@ -52,11 +52,13 @@ private:
 
     void resolve_handler(const asio::error_code& ec, asio::ip::tcp::resolver::iterator endpoints);
     void connect_handler(const asio::error_code& ec);
-    void read_handler(const asio::error_code& ec, std::size_t bytes_transferred);
-    void write_handler(const asio::error_code& ec, std::size_t bytes_transferred);
+    void read_handler(unsigned int connection_id, const asio::error_code& ec, std::size_t bytes_transferred);
+    void write_handler(unsigned int connection_id, const asio::error_code& ec, std::size_t bytes_transferred);
 
+    void close_socket();
     void begin_read();
     void send_buffer();
+    void begin_write();
     void send_error(const std::string& message);
 
     std::shared_ptr<Logger> m_logger;
@@ -69,7 +71,10 @@ private:
     bool m_is_shutdown;
     ConnectionStatus m_current_connection_status;
     std::array<uint8_t, 4096> m_read_buffer;
-    std::unique_ptr<ser4cpp::Buffer> m_write_buffer;
+    std::shared_ptr<ser4cpp::Buffer> m_write_buffer;
+    std::shared_ptr<ser4cpp::Buffer> m_next_write_buffer;
+    std::size_t m_num_bytes_written;
+    unsigned int m_connection_id;
 
     std::weak_ptr<IConnectionListener> m_connection_listener;
 };
-- 
2.43.0


From 1e0626d411b97b9a881f6ed771d7d685e279ac6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:42 +0000
Subject: [PATCH 10/21] fix: the end of the stream fails the outstanding
 requests and resets the parser

A request whose connection was closed by the peer had to wait for its timeout,
and a frame left incomplete was completed with the data of the next connection.
---
 lib/src/client/channel/AsioClientTcpConnection.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/src/client/channel/AsioClientTcpConnection.cpp b/lib/src/client/channel/AsioClientTcpConnection.cpp
index 938a655..bd8862d 100644
--- a/lib/src/client/channel/AsioClientTcpConnection.cpp
+++ b/lib/src/client/channel/AsioClientTcpConnection.cpp
@@ -153,14 +153,13 @@ void AsioClientTcpConnection::read_handler(unsigned int connection_id, const asi
         if(ec == asio::error::misc_errors::eof)
         {
             m_logger->info("Connection gracefully closed by peer.");
-            close_socket();
         }
         else
         {
             m_logger->error("Read error: {}", ec.message());
-            close_socket();
-            send_error(ec.message());
         }
+        close_socket();
+        send_error(ec.message());
         return;
     }
 
-- 
2.43.0


From 5f7158e8b2e7f84645e7f07d867f81acac70ddd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:18 +0000
Subject: [PATCH 11/21] fix: client channel uses its adapter, and survives
 resolve and bind failures

asio::async_connect closed and re-opened the socket, so that the binding to the
adapter was lost. When the adapter was invalid or the host name could not be
resolved, the socket was left open and every later request failed to open it
again and was left to time out; these failures are now reported as connection
errors and the next request starts over.
---
 .../channel/AsioClientTcpConnection.cpp       | 68 +++++++++++++------
 .../client/channel/AsioClientTcpConnection.h  |  4 +-
 2 files changed, 49 insertions(+), 23 deletions(-)

diff --git a/lib/src/client/channel/AsioClientTcpConnection.cpp b/lib/src/client/channel/AsioClientTcpConnection.cpp
index bd8862d..f6dec87 100644
--- a/lib/src/client/channel/AsioClientTcpConnection.cpp
+++ b/lib/src/client/channel/AsioClientTcpConnection.cpp
@@ -56,23 +56,9 @@ void AsioClientTcpConnection::send(const ser4cpp::rseq_t& data)
     {
         m_logger->info("Establishing connection to {}:{}", m_ip_endpoint.get_hostname(), m_ip_endpoint.get_port());
 
-        // Connect to the proper adapter
-        asio::error_code ec{};
-        const auto address = asio::ip::address::from_string(m_adapter.empty() ? "0.0.0.0" : m_adapter, ec);
-        if(ec) { m_logger->error("from_address error: {}", ec.message()); return; }
-
-        asio::ip::tcp::endpoint endpoint{};
-        endpoint.address(address);
-        endpoint.port(0);
-        m_tcp_socket.open(asio::ip::tcp::v4(), ec);
-        if(ec) { m_logger->error("socket open error: {}", ec.message()); return; }
-
-        m_tcp_socket.bind(endpoint, ec);
-        if(ec) { m_logger->error("socket bind error: {}", ec.message()); return; }
-
         // Start connecting
         m_current_connection_status = ConnectionStatus::Connecting;
-        asio::ip::tcp::resolver::query query{m_ip_endpoint.get_hostname(), std::to_string(m_ip_endpoint.get_port())};
+        asio::ip::tcp::resolver::query query{asio::ip::tcp::v4(), m_ip_endpoint.get_hostname(), std::to_string(m_ip_endpoint.get_port())};
         m_resolver.async_resolve(query,
                                  m_executor->wrap(std::bind(&AsioClientTcpConnection::resolve_handler,
                                                             std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this()),
@@ -113,24 +99,62 @@ void AsioClientTcpConnection::resolve_handler(const asio::error_code& ec, asio::
     if(ec)
     {
         m_logger->error("IP resolver error: {}", ec.message());
-        m_current_connection_status = ConnectionStatus::NotConnected;
+        close_socket();
+        send_error(ec.message());
+        return;
+    }
+
+    connect(endpoints);
+}
+
+void AsioClientTcpConnection::connect(asio::ip::tcp::resolver::iterator endpoints)
+{
+    // asio::async_connect is not used because it closes and re-opens the socket, which loses the adapter
+    asio::error_code ec;
+    open_socket(ec);
+    if(ec)
+    {
+        close_socket();
         send_error(ec.message());
         return;
     }
 
-    asio::async_connect(m_tcp_socket,
-                        endpoints,
-                        m_executor->wrap(std::bind(&AsioClientTcpConnection::connect_handler,
-                                                std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this()),
-                                                _1)));
+    const auto endpoint = endpoints->endpoint();
+    m_tcp_socket.async_connect(endpoint,
+                               m_executor->wrap(std::bind(&AsioClientTcpConnection::connect_handler,
+                                                       std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this()),
+                                                       ++endpoints, _1)));
+}
+
+void AsioClientTcpConnection::open_socket(asio::error_code& ec)
+{
+    m_tcp_socket.close(ec);
+    m_tcp_socket.open(asio::ip::tcp::v4(), ec);
+    if(ec) { m_logger->error("socket open error: {}", ec.message()); return; }
+
+    // Use the proper adapter
+    if(!m_adapter.empty())
+    {
+        const auto address = asio::ip::address::from_string(m_adapter, ec);
+        if(ec) { m_logger->error("from_address error: {}", ec.message()); return; }
+
+        m_tcp_socket.bind(asio::ip::tcp::endpoint{address, 0}, ec);
+        if(ec) { m_logger->error("socket bind error: {}", ec.message()); return; }
+    }
 }
 
-void AsioClientTcpConnection::connect_handler(const asio::error_code& ec)
+void AsioClientTcpConnection::connect_handler(asio::ip::tcp::resolver::iterator next_endpoints, const asio::error_code& ec)
 {
     if(m_is_shutdown) return;
 
     if(ec)
     {
+        if(next_endpoints != asio::ip::tcp::resolver::iterator{})
+        {
+            connect(next_endpoints);
+            return;
+        }
+
         m_logger->error("Connection error: {}", ec.message());
         close_socket();
         send_error(ec.message());
diff --git a/lib/src/client/channel/AsioClientTcpConnection.h b/lib/src/client/channel/AsioClientTcpConnection.h
index ae84bf8..66c38e8 100644
--- a/lib/src/client/channel/AsioClientTcpConnection.h
+++ b/lib/src/client/channel/AsioClientTcpConnection.h
@@ -51,10 +51,12 @@ private:
     };
 
     void resolve_handler(const asio::error_code& ec, asio::ip::tcp::resolver::iterator endpoints);
-    void connect_handler(const asio::error_code& ec);
+    void connect_handler(asio::ip::tcp::resolver::iterator next_endpoints, const asio::error_code& ec);
     void read_handler(unsigned int connection_id, const asio::error_code& ec, std::size_t bytes_transferred);
     void write_handler(unsigned int connection_id, const asio::error_code& ec, std::size_t bytes_transferred);
 
+    void connect(asio::ip::tcp::resolver::iterator endpoints);
+    void open_socket(asio::error_code& ec);
     void close_socket();
     void begin_read();
     void send_buffer();
-- 
2.43.0


From 4204fcbeca92b6b2d67d507cd30f688c1a9ff630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:11 +0000
Subject: [PATCH 12/21] fix: a timeout which expires while its response is
 processed spares the next request

Cancelling a timer whose handler is already queued has no effect: the handler
then timed out the request that had been sent in the meantime.
---
 lib/src/client/channel/ClientChannelTcp.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/src/client/channel/ClientChannelTcp.cpp b/lib/src/client/channel/ClientChannelTcp.cpp
index 6cb27e8..1ab6a69 100644
--- a/lib/src/client/channel/ClientChannelTcp.cpp
+++ b/lib/src/client/channel/ClientChannelTcp.cpp
@@ -192,10 +192,12 @@ void ClientChannelTcp::check_pending_requests()
         m_tcp_connection->set_listener(std::dynamic_pointer_cast<ClientChannelTcp>(shared_from_this()));
         m_tcp_connection->send(serialized_request);
 
+        const auto transaction_id = m_current_request->transaction_id;
         m_current_timer = m_executor->start(m_current_request->timeout, [=, self = shared_from_this()]() {
             if(m_is_shutdown) return;
 
-            if (m_current_request)
+            // The timer of an earlier request may already have been queued when it was cancelled
+            if (m_current_request && m_current_request->transaction_id == transaction_id)
             {
                 m_logger->warn("Timeout reached. UnitId: {}, TransactionId: {}.",
                     m_current_request->unit_id, m_current_request->transaction_id);
-- 
2.43.0


From cfc01649c73516a056691f3855ac8c852195617c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:26 +0000
Subject: [PATCH 13/21] fix: a scheduled request which is restarted polls once
 per period

Stopping and starting it again while a request was outstanding left two polling
chains running, and an expiry which was already queued when it was stopped sent
one more request.
---
 lib/src/client/session/ScheduledRequest.h   |  1 +
 lib/src/client/session/ScheduledRequest.hpp | 11 +++++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/src/client/session/ScheduledRequest.h b/lib/src/client/session/ScheduledRequest.h
index 2af9ea3..0e29db4 100644
--- a/lib/src/client/session/ScheduledRequest.h
+++ b/lib/src/client/session/ScheduledRequest.h
@@ -59,6 +59,7 @@ private:
     duration_t m_frequency;
 
     bool m_running;
+    unsigned int m_run_id;
     exe4cpp::Timer m_timer;
 };
 
diff --git a/lib/src/client/session/ScheduledRequest.hpp b/lib/src/client/session/ScheduledRequest.hpp
index 419ead5..ae657ca 100644
--- a/lib/src/client/session/ScheduledRequest.hpp
+++ b/lib/src/client/session/ScheduledRequest.hpp
@@ -38,6 +38,7 @@ ScheduledRequest<TRequest, TResponse>::ScheduledRequest(std::shared_ptr<IClientS
       m_timeout{timeout},
       m_frequency{frequency},
       m_running{false},
+      m_run_id{0},
       m_timer{nullptr}
 {
 
@@ -50,6 +51,7 @@ void ScheduledRequest<TRequest, TResponse>::start()
         if(!m_running)
         {
             m_running = true;
+            ++m_run_id;
             execute();
         }
     });
@@ -91,16 +93,21 @@ template<typename TRequest, typename TResponse>
 void ScheduledRequest<TRequest, TResponse>::execute()
 {
     // Send the request
+    const auto run_id = m_run_id;
     m_session->send_request(m_request, m_timeout, [=, self = shared_from_this()](const Expected<TResponse>& response) {
 
         // Call the response handler
         m_handler(response);
 
-        if(is_running())
+        // If it was stopped in the meantime, this run is over (even if it was started again)
+        if(is_running() && run_id == m_run_id)
         {
             // Start the timer for the next execution
             m_timer = m_executor->start(m_frequency, [=, self2 = self]() {
-                execute();
+                if(is_running() && run_id == m_run_id)
+                {
+                    execute();
+                }
             });
         }
     });
-- 
2.43.0


From a0d50d58928c1dd695dcd78c5bddce17836fb60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:36 +0000
Subject: [PATCH 14/21] fix: data races on the shutdown flags, the client
 sessions and the polling state

They are written by the channel's executor and read (or, for the sessions,
written) by the user's threads.
---
 lib/src/client/channel/ClientChannelTcp.cpp | 6 +++++-
 lib/src/client/channel/ClientChannelTcp.h   | 3 ++-
 lib/src/client/session/ScheduledRequest.h   | 5 +++--
 lib/src/client/session/ScheduledRequest.hpp | 2 +-
 lib/src/server/channel/ServerChannelTcp.h   | 3 ++-
 5 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/lib/src/client/channel/ClientChannelTcp.cpp b/lib/src/client/channel/ClientChannelTcp.cpp
index 1ab6a69..60042c3 100644
--- a/lib/src/client/channel/ClientChannelTcp.cpp
+++ b/lib/src/client/channel/ClientChannelTcp.cpp
@@ -51,7 +51,11 @@ std::shared_ptr<IClientSession> ClientChannelTcp::create_session(const UnitIdent
                                                       std::dynamic_pointer_cast<IClientChannelImpl>(shared_from_this()),
                                                       unit_identifier,
                                                       default_timeout);
-        m_sessions.push_back(session);
+        m_executor->post([=, self = shared_from_this()]() {
+            if(m_is_shutdown) return;
+
+            m_sessions.push_back(session);
+        });
     }
 
     return session;
diff --git a/lib/src/client/channel/ClientChannelTcp.h b/lib/src/client/channel/ClientChannelTcp.h
index e65e8b0..ff6159a 100644
--- a/lib/src/client/channel/ClientChannelTcp.h
+++ b/lib/src/client/channel/ClientChannelTcp.h
@@ -16,6 +16,7 @@
 #ifndef MODBUS_CLIENTCHANNELTCP_H
 #define MODBUS_CLIENTCHANNELTCP_H
 
+#include <atomic>
 #include <deque>
 #include <memory>
 #include "ser4cpp/container/Buffer.h"
@@ -68,7 +69,7 @@ private:
     std::shared_ptr<Logger> m_logger;
     std::shared_ptr<ITcpConnection> m_tcp_connection;
 
-    bool m_is_shutdown;
+    std::atomic<bool> m_is_shutdown;
     std::vector<std::shared_ptr<IClientSession>> m_sessions;
     MbapParser m_parser;
     std::deque<std::unique_ptr<PendingRequest>> m_pending_requests;
diff --git a/lib/src/client/session/ScheduledRequest.h b/lib/src/client/session/ScheduledRequest.h
index 0e29db4..c2eeeb6 100644
--- a/lib/src/client/session/ScheduledRequest.h
+++ b/lib/src/client/session/ScheduledRequest.h
@@ -16,6 +16,7 @@
 #ifndef MODBUS_SCHEDULEDREQUEST_H
 #define MODBUS_SCHEDULEDREQUEST_H
 
+#include <atomic>
 #include <memory>
 #include "exe4cpp/IExecutor.h"
 #include "exe4cpp/Timer.h"
@@ -56,9 +57,9 @@ private:
     std::shared_ptr<exe4cpp::IExecutor> m_executor;
     TRequest m_request;
     duration_t m_timeout;
-    duration_t m_frequency;
+    std::atomic<duration_t> m_frequency;
 
-    bool m_running;
+    std::atomic<bool> m_running;
     unsigned int m_run_id;
     exe4cpp::Timer m_timer;
 };
diff --git a/lib/src/client/session/ScheduledRequest.hpp b/lib/src/client/session/ScheduledRequest.hpp
index ae657ca..a478ade 100644
--- a/lib/src/client/session/ScheduledRequest.hpp
+++ b/lib/src/client/session/ScheduledRequest.hpp
@@ -103,7 +103,7 @@ void ScheduledRequest<TRequest, TResponse>::execute()
         if(is_running() && run_id == m_run_id)
         {
             // Start the timer for the next execution
-            m_timer = m_executor->start(m_frequency, [=, self2 = self]() {
+            m_timer = m_executor->start(get_frequency(), [=, self2 = self]() {
                 if(is_running() && run_id == m_run_id)
                 {
                     execute();
diff --git a/lib/src/server/channel/ServerChannelTcp.h b/lib/src/server/channel/ServerChannelTcp.h
index 18896d7..a3d2dd0 100644
--- a/lib/src/server/channel/ServerChannelTcp.h
+++ b/lib/src/server/channel/ServerChannelTcp.h
@@ -16,6 +16,7 @@
 #ifndef MODBUS_SERVERCHANNELTCP_H
 #define MODBUS_SERVERCHANNELTCP_H
 
+#include <atomic>
 #include <memory>
 #include <unordered_map>
 
@@ -55,7 +56,7 @@ private:
     std::shared_ptr<exe4cpp::IExecutor> m_executor;
     std::shared_ptr<IServer> m_server;
 
-    bool m_is_shutdown;
+    std::atomic<bool> m_is_shutdown;
     bool m_is_started;
     std::unordered_map<UnitIdentifier, std::shared_ptr<IServerSession>> m_sessions;
 };
-- 
2.43.0


From 0a8f141a8f179c82432534261cb25dbe32d39d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:46 +0000
Subject: [PATCH 15/21] fix: the buffer being written is kept until the socket
 is closed

The I/O thread writes it outside of the strand; it was freed just before the
socket was closed.
---
 lib/src/client/channel/AsioClientTcpConnection.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/src/client/channel/AsioClientTcpConnection.cpp b/lib/src/client/channel/AsioClientTcpConnection.cpp
index f6dec87..a9df3d0 100644
--- a/lib/src/client/channel/AsioClientTcpConnection.cpp
+++ b/lib/src/client/channel/AsioClientTcpConnection.cpp
@@ -236,8 +236,6 @@ void AsioClientTcpConnection::close_socket()
 
     // Completions of the operations of this connection are ignored from now on
     ++m_connection_id;
-    m_write_buffer = nullptr;
-    m_next_write_buffer = nullptr;
 
     if(m_tcp_socket.is_open())
     {
@@ -247,6 +245,10 @@ void AsioClientTcpConnection::close_socket()
         m_tcp_socket.shutdown(asio::ip::tcp::socket::shutdown_both, ec);
         m_tcp_socket.close(ec);
     }
+
+    // Another thread may be writing the buffer until the socket is closed
+    m_write_buffer = nullptr;
+    m_next_write_buffer = nullptr;
 }
 
 void AsioClientTcpConnection::begin_read()
-- 
2.43.0


From 5f7769a6811660a33ec105c37d9c09a6714c72cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:02 +0000
Subject: [PATCH 16/21] fix: shutting down a client channel closes its
 connection

The pending operations were cancelled but the connection stayed open until
the channel was destroyed, which may be long after.
---
 lib/src/client/channel/AsioClientTcpConnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/client/channel/AsioClientTcpConnection.cpp b/lib/src/client/channel/AsioClientTcpConnection.cpp
index a9df3d0..56c74ba 100644
--- a/lib/src/client/channel/AsioClientTcpConnection.cpp
+++ b/lib/src/client/channel/AsioClientTcpConnection.cpp
@@ -88,7 +88,7 @@ void AsioClientTcpConnection::shutdown()
         m_is_shutdown = true;
 
         std::error_code ec;
-        m_tcp_socket.cancel(ec);
+        m_tcp_socket.close(ec);
     });
 }
 
-- 
2.43.0


From fd005d6a6f9b95102874539f6b3ce870c193eb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:22 +0000
Subject: [PATCH 17/21] fix: a connection which is being accepted is not
 touched

---
 lib/src/server/channel/AsioServer.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lib/src/server/channel/AsioServer.cpp b/lib/src/server/channel/AsioServer.cpp
index e25a226..9fca4fe 100644
--- a/lib/src/server/channel/AsioServer.cpp
+++ b/lib/src/server/channel/AsioServer.cpp
@@ -68,7 +68,6 @@ void AsioServer::start_accept()
         if(m_is_shutdown) return;
 
         auto connection = std::make_shared<AsioServerTcpConnection>(m_logger, m_executor, std::dynamic_pointer_cast<AsioServer>(shared_from_this()));
-        m_connections.push_back(connection);
         m_tcp_acceptor.async_accept(connection->get_socket(),
                                     m_executor->wrap(
                                         std::bind(&AsioServer::handle_accept,
@@ -86,9 +85,6 @@ void AsioServer::handle_accept(std::shared_ptr<AsioServerTcpConnection> connecti
     {
         m_logger->error("Accept error: {}", ec.message());
 
-        // This connection was never counted
-        m_connections.remove(connection);
-
         // Try again a bit later, the cause may be temporary (e.g. out of file descriptors)
         m_executor->start(std::chrono::milliseconds(100), [this, self=shared_from_this()] {
             start_accept();
@@ -96,6 +92,9 @@ void AsioServer::handle_accept(std::shared_ptr<AsioServerTcpConnection> connecti
         return;
     }
 
+    // The socket is not touched before it is accepted, because accepting is done outside the strand
+    m_connections.push_back(connection);
+
     // Kill an old connection if there are two many open connections
     ++m_num_connections;
     if(m_num_connections > m_max_connections)
-- 
2.43.0


From 8fd85800ac90802427751350996ad1529931ba51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:07 +0000
Subject: [PATCH 18/21] fix: an identifier is printed alike whatever the
 settings of the stream

On a left-adjusted stream unit 0x05 was printed as 0x50, with showbase as
0x0X5, and a locale which groups digits put separators into it.
---
 lib/src/TransactionIdentifier.cpp | 18 ++++++------------
 lib/src/UnitIdentifier.cpp        | 19 ++++++-------------
 2 files changed, 12 insertions(+), 25 deletions(-)

diff --git a/lib/src/TransactionIdentifier.cpp b/lib/src/TransactionIdentifier.cpp
index 15839c8..f008cff 100644
--- a/lib/src/TransactionIdentifier.cpp
+++ b/lib/src/TransactionIdentifier.cpp
@@ -15,7 +15,8 @@
  */
 #include "TransactionIdentifier.h"
 
-#include <iomanip>
+#include <cstdio>
+#include <ostream>
 
 namespace modbus
 {
@@ -56,17 +57,10 @@ TransactionIdentifier TransactionIdentifier::operator++(int)
 
 std::ostream& operator<<(std::ostream& stream, const TransactionIdentifier& transaction_id)
 {
-    const auto flags = stream.flags();
-    const auto fill = stream.fill();
-
-    stream << "0x"
-           << std::uppercase
-           << std::setw(4) << std::setfill('0')
-           << std::hex << (unsigned int)transaction_id.get_value();
-
-    stream.flags(flags);
-    stream.fill(fill);
-    return stream;
+    // Not formatted by the stream, because any of its settings could change the digits
+    char text[7];
+    std::snprintf(text, sizeof(text), "0x%04X", (unsigned int)transaction_id.get_value());
+    return stream << text;
 }
 
 } // namespace modbus
diff --git a/lib/src/UnitIdentifier.cpp b/lib/src/UnitIdentifier.cpp
index ae84a70..2f74b85 100644
--- a/lib/src/UnitIdentifier.cpp
+++ b/lib/src/UnitIdentifier.cpp
@@ -15,25 +15,18 @@
  */
 #include "modbus/UnitIdentifier.h"
 
-#include <ios>
-#include <iomanip>
+#include <cstdio>
+#include <ostream>
 
 namespace modbus
 {
 
 std::ostream& operator<<(std::ostream& stream, const UnitIdentifier& unit_id)
 {
-    const auto flags = stream.flags();
-    const auto fill = stream.fill();
-
-    stream << "0x"
-           << std::uppercase
-           << std::setw(2) << std::setfill('0')
-           << std::hex << (unsigned int)unit_id.get_value();
-
-    stream.flags(flags);
-    stream.fill(fill);
-    return stream;
+    // Not formatted by the stream, because any of its settings could change the digits
+    char text[5];
+    std::snprintf(text, sizeof(text), "0x%02X", (unsigned int)unit_id.get_value());
+    return stream << text;
 }
 
 } // namespace modbus
-- 
2.43.0


From 8b944de213b41b5e8da6efd0064e295ff1cf8d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:07 +0000
Subject: [PATCH 19/21] fix: Expected copies a value instead of wrapping it in
 a list

With g++, braces choose the list constructor of a value type which has one
that accepts the type itself, so the value became a list of one value.
---
 lib/include/modbus/Expected.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/include/modbus/Expected.h b/lib/include/modbus/Expected.h
index f689eea..d472468 100644
--- a/lib/include/modbus/Expected.h
+++ b/lib/include/modbus/Expected.h
@@ -62,7 +62,7 @@ public:
      * }
      * @ce
      */
-    Expected(const T& value) : m_value{value}, m_has_value{true} {}
+    Expected(const T& value) : m_value(value), m_has_value{true} {}
 
     /**
      * @brief Constructor for a valid value
@@ -70,7 +70,7 @@ public:
      *
      * This constructor is used whenever you want to create a valid value (i.e. no error) by move.
      */
-    Expected(T&& rhs) : m_value{std::move(rhs)}, m_has_value{true} {}
+    Expected(T&& rhs) : m_value(std::move(rhs)), m_has_value{true} {}
 
     /**
      * @brief Copy contructor
@@ -84,7 +84,7 @@ public:
     {
         if(m_has_value)
         {
-            new(&m_value) T{rhs.m_value};
+            new(&m_value) T(rhs.m_value);
         }
         else
         {
@@ -104,7 +104,7 @@ public:
     {
         if(m_has_value)
         {
-            new(&m_value) T{std::move(rhs.m_value)};
+            new(&m_value) T(std::move(rhs.m_value));
         }
         else
         {
-- 
2.43.0


From 7ddd20ffa9ab9cd10f5b1dce2cb76caa8a422775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:19 +0000
Subject: [PATCH 20/21] fix: a session which serves several units is told once
 to shut down

---
 lib/src/server/channel/ServerChannelTcp.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/src/server/channel/ServerChannelTcp.cpp b/lib/src/server/channel/ServerChannelTcp.cpp
index 19b336e..592aaaa 100644
--- a/lib/src/server/channel/ServerChannelTcp.cpp
+++ b/lib/src/server/channel/ServerChannelTcp.cpp
@@ -15,6 +15,8 @@
  */
 #include "server/channel/ServerChannelTcp.h"
 
+#include <set>
+
 #include "ser4cpp/container/SequenceTypes.h"
 #include "ser4cpp/container/StaticBuffer.h"
 #include "ser4cpp/serialization/BigEndian.h"
@@ -77,9 +79,15 @@ void ServerChannelTcp::shutdown()
             m_is_started = false;
         }
         
+        // A session may serve more than one unit
+        std::set<std::shared_ptr<IServerSession>> sessions;
         for(auto session : m_sessions)
         {
-            session.second->shutdown();
+            sessions.insert(session.second);
+        }
+        for(auto session : sessions)
+        {
+            session->shutdown();
         }
         m_sessions.clear();
     });
-- 
2.43.0


From d5d48508d3a5e4280154b318ba5b76e0e0216d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:32 +0000
Subject: [PATCH 21/21] fix: a poll which is scheduled on a session that was
 shut down is released

---
 lib/src/client/channel/ClientChannelTcp.cpp  |  6 +++++-
 lib/src/client/session/ClientSessionImpl.cpp | 12 +++++++++++-
 lib/src/client/session/ClientSessionImpl.h   |  1 +
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/lib/src/client/channel/ClientChannelTcp.cpp b/lib/src/client/channel/ClientChannelTcp.cpp
index 60042c3..efbfd02 100644
--- a/lib/src/client/channel/ClientChannelTcp.cpp
+++ b/lib/src/client/channel/ClientChannelTcp.cpp
@@ -52,7 +52,11 @@ std::shared_ptr<IClientSession> ClientChannelTcp::create_session(const UnitIdent
                                                       unit_identifier,
                                                       default_timeout);
         m_executor->post([=, self = shared_from_this()]() {
-            if(m_is_shutdown) return;
+            if(m_is_shutdown)
+            {
+                session->shutdown();
+                return;
+            }
 
             m_sessions.push_back(session);
         });
diff --git a/lib/src/client/session/ClientSessionImpl.cpp b/lib/src/client/session/ClientSessionImpl.cpp
index 4a264cf..c85af67 100644
--- a/lib/src/client/session/ClientSessionImpl.cpp
+++ b/lib/src/client/session/ClientSessionImpl.cpp
@@ -47,7 +47,8 @@ ClientSessionImpl::ClientSessionImpl(std::shared_ptr<exe4cpp::IExecutor> executo
   m_logger{logger},
   m_channel{channel},
   m_unit_identifier{unit_identifier},
-  m_default_timeout{default_timeout}
+  m_default_timeout{default_timeout},
+  m_is_shutdown{false}
 {
 
 }
@@ -55,6 +56,8 @@ ClientSessionImpl::ClientSessionImpl(std::shared_ptr<exe4cpp::IExecutor> executo
 void ClientSessionImpl::shutdown()
 {
     m_executor->post([=, self = shared_from_this()] {
+        m_is_shutdown = true;
+
         for(auto& req : m_scheduled_requests)
         {
             req->stop();
@@ -272,6 +275,13 @@ std::shared_ptr<IScheduledRequest> ClientSessionImpl::meta_schedule_request(cons
     scheduled_request->start();
 
     m_executor->post([=, self = shared_from_this()]() {
+        if(m_is_shutdown)
+        {
+            // Nobody would stop and release it
+            scheduled_request->stop();
+            return;
+        }
+
         m_scheduled_requests.push_back(scheduled_request);
     });
 
diff --git a/lib/src/client/session/ClientSessionImpl.h b/lib/src/client/session/ClientSessionImpl.h
index a98c138..d0c1d68 100644
--- a/lib/src/client/session/ClientSessionImpl.h
+++ b/lib/src/client/session/ClientSessionImpl.h
@@ -146,6 +146,7 @@ private:
     std::shared_ptr<IClientChannelImpl> m_channel;
     UnitIdentifier m_unit_identifier;
     duration_t m_default_timeout;
+    bool m_is_shutdown;
 
     std::vector<std::shared_ptr<IScheduledRequest>> m_scheduled_requests;
 };
-- 
2.43.0

