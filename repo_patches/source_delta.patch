From 3d99dc457fb66f02c11d9b364b865b7bd87fe110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:01 +0000
Subject: [PATCH 01/15] fix: give MemoryParityError its Modbus exception code
 0x08

---
 lib/include/modbus/messages/ExceptionType.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/include/modbus/messages/ExceptionType.h b/lib/include/modbus/messages/ExceptionType.h
index 4823050..b480209 100644
--- a/lib/include/modbus/messages/ExceptionType.h
+++ b/lib/include/modbus/messages/ExceptionType.h
@@ -82,13 +82,13 @@ enum class ExceptionType
     ServerDeviceBusy = 0x06,
 
     /**
-     * @cpp 0x07 @ce Memory parity error
+     * @cpp 0x08 @ce Memory parity error
      *
      * The extended file area failed to pass a consistency check.
      *
      * Used with function codes @cpp 0x20 @ce and @cpp 0x21 @ce (not supported by this library)
      */
-    MemoryParityError = 0x07,
+    MemoryParityError = 0x08,
 
     /**
      * @cpp 0x0A @ce Gateway path unavailable
-- 
2.43.0


From 80ecf567ff2e1bee58f10db5d7d9ed0160db0798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:16 +0000
Subject: [PATCH 02/15] fix: reject register responses whose byte count differs
 from their length

---
 lib/src/messages/ReadRegistersResponseImpl.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/src/messages/ReadRegistersResponseImpl.cpp b/lib/src/messages/ReadRegistersResponseImpl.cpp
index 7a45f07..aa156fe 100644
--- a/lib/src/messages/ReadRegistersResponseImpl.cpp
+++ b/lib/src/messages/ReadRegistersResponseImpl.cpp
@@ -85,6 +85,12 @@ ReadRegistersResponseImpl<function_code, request_t, response_t>::parse(const Rea
         return Expected<response_t>::from_exception(MalformedModbusResponseException{"Response should contain an even number of register bytes."});
     }
 
+    // Check that the number of bytes fits
+    if(view.length() != length)
+    {
+        return Expected<response_t>::from_exception(MalformedModbusResponseException{"Response length does not fit with the value in the header."});
+    }
+
     // Check that each number of registers match
     if(view.length() != 2 * req.get_request().qty_of_registers)
     {
-- 
2.43.0


From 9bf86cb000b7513253142519bcf78f83b67e5d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:35 +0000
Subject: [PATCH 03/15] fix: keep the first 253 bytes of a frame whose declared
 body is longer

---
 lib/src/messages/mbap/MbapParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/messages/mbap/MbapParser.cpp b/lib/src/messages/mbap/MbapParser.cpp
index c0f306e..ca5fa1c 100644
--- a/lib/src/messages/mbap/MbapParser.cpp
+++ b/lib/src/messages/mbap/MbapParser.cpp
@@ -34,7 +34,7 @@ void MbapParser::parse(ser4cpp::rseq_t data)
         auto read = data.take(m_num_bytes_to_read);
         data.advance(read.length());
         m_num_bytes_to_read -= read.length();
-        m_buffer_view.copy_from(read);
+        m_buffer_view.copy_from(read.take(m_buffer_view.length()));
 
         if(m_num_bytes_to_read == 0)
         {
-- 
2.43.0


From b14e7195f9eb04de749ead85cf2ce4e22f6a6e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:35 +0000
Subject: [PATCH 04/15] fix: deliver a frame without body as soon as its header
 is complete

---
 lib/src/messages/mbap/MbapParser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/messages/mbap/MbapParser.cpp b/lib/src/messages/mbap/MbapParser.cpp
index ca5fa1c..5ac143c 100644
--- a/lib/src/messages/mbap/MbapParser.cpp
+++ b/lib/src/messages/mbap/MbapParser.cpp
@@ -72,6 +72,11 @@ void MbapParser::find_body_size()
 
     m_num_bytes_to_read = length - 1;
     m_reading_body = true;
+
+    if(m_num_bytes_to_read == 0)
+    {
+        send_data();
+    }
 }
 
 void MbapParser::send_data()
-- 
2.43.0


From ba563dcb9082790dc34fed1b6ccae94cca5a0c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:20 +0000
Subject: [PATCH 05/15] fix: let a due timeout complete only the request it was
 started for

---
 lib/src/client/channel/ClientChannelTcp.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/src/client/channel/ClientChannelTcp.cpp b/lib/src/client/channel/ClientChannelTcp.cpp
index 6cb27e8..59844f6 100644
--- a/lib/src/client/channel/ClientChannelTcp.cpp
+++ b/lib/src/client/channel/ClientChannelTcp.cpp
@@ -192,10 +192,12 @@ void ClientChannelTcp::check_pending_requests()
         m_tcp_connection->set_listener(std::dynamic_pointer_cast<ClientChannelTcp>(shared_from_this()));
         m_tcp_connection->send(serialized_request);
 
+        const auto transaction_id = m_current_request->transaction_id;
         m_current_timer = m_executor->start(m_current_request->timeout, [=, self = shared_from_this()]() {
             if(m_is_shutdown) return;
 
-            if (m_current_request)
+            // The request could have completed when this action was already due
+            if (m_current_request && m_current_request->transaction_id == transaction_id)
             {
                 m_logger->warn("Timeout reached. UnitId: {}, TransactionId: {}.",
                     m_current_request->unit_id, m_current_request->transaction_id);
-- 
2.43.0


From fcacc3ac658191a53f6a4a0e9c2f281a7c0aed1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:20 +0000
Subject: [PATCH 06/15] fix: start each connection of a client channel with an
 empty parser

---
 lib/src/IConnectionListener.h                      | 1 +
 lib/src/client/channel/AsioClientTcpConnection.cpp | 7 +++++++
 lib/src/client/channel/ClientChannelTcp.cpp        | 8 ++++++++
 lib/src/client/channel/ClientChannelTcp.h          | 1 +
 4 files changed, 17 insertions(+)

diff --git a/lib/src/IConnectionListener.h b/lib/src/IConnectionListener.h
index 17142ed..8d7aa6b 100644
--- a/lib/src/IConnectionListener.h
+++ b/lib/src/IConnectionListener.h
@@ -28,6 +28,7 @@ class IConnectionListener
 public:
     virtual ~IConnectionListener() = default;
 
+    virtual void on_connected() {};
     virtual void on_write_done() {};
     virtual void on_receive(const ser4cpp::rseq_t& data) {};
     virtual void on_error(const std::string& message) {};
diff --git a/lib/src/client/channel/AsioClientTcpConnection.cpp b/lib/src/client/channel/AsioClientTcpConnection.cpp
index f9bbc6e..65ebbd8 100644
--- a/lib/src/client/channel/AsioClientTcpConnection.cpp
+++ b/lib/src/client/channel/AsioClientTcpConnection.cpp
@@ -146,6 +146,13 @@ void AsioClientTcpConnection::connect_handler(const asio::error_code& ec)
 
     m_logger->info("Connection established");
     m_current_connection_status = ConnectionStatus::Connected;
+
+    auto connection_listener = m_connection_listener.lock();
+    if(connection_listener)
+    {
+        connection_listener->on_connected();
+    }
+
     send_buffer();
 
     begin_read();
diff --git a/lib/src/client/channel/ClientChannelTcp.cpp b/lib/src/client/channel/ClientChannelTcp.cpp
index 59844f6..a31fa4a 100644
--- a/lib/src/client/channel/ClientChannelTcp.cpp
+++ b/lib/src/client/channel/ClientChannelTcp.cpp
@@ -111,6 +111,14 @@ void ClientChannelTcp::shutdown()
     });
 }
 
+void ClientChannelTcp::on_connected()
+{
+    if(m_is_shutdown) return;
+
+    // Bytes left over from a previous connection do not belong to this one
+    m_parser.reset();
+}
+
 void ClientChannelTcp::on_receive(const ser4cpp::rseq_t& data)
 {
     if(m_is_shutdown) return;
diff --git a/lib/src/client/channel/ClientChannelTcp.h b/lib/src/client/channel/ClientChannelTcp.h
index e65e8b0..391bf0f 100644
--- a/lib/src/client/channel/ClientChannelTcp.h
+++ b/lib/src/client/channel/ClientChannelTcp.h
@@ -53,6 +53,7 @@ public:
     void shutdown() override;
 
     // Connection listener
+    void on_connected() override;
     void on_receive(const ser4cpp::rseq_t& data) override;
     void on_error(const std::string& message) override;
 
-- 
2.43.0


From c9d7a46ceb0764fa4df6519bb20c1cad0a8bb7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:43 +0000
Subject: [PATCH 07/15] fix: close the client socket when resolving or binding
 fails

---
 lib/src/client/channel/AsioClientTcpConnection.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/client/channel/AsioClientTcpConnection.cpp b/lib/src/client/channel/AsioClientTcpConnection.cpp
index 65ebbd8..0ee171d 100644
--- a/lib/src/client/channel/AsioClientTcpConnection.cpp
+++ b/lib/src/client/channel/AsioClientTcpConnection.cpp
@@ -66,7 +66,7 @@ void AsioClientTcpConnection::send(const ser4cpp::rseq_t& data)
         if(ec) { m_logger->error("socket open error: {}", ec.message()); return; }
 
         m_tcp_socket.bind(endpoint, ec);
-        if(ec) { m_logger->error("socket bind error: {}", ec.message()); return; }
+        if(ec) { m_logger->error("socket bind error: {}", ec.message()); close(); return; }
 
         // Start connecting
         m_current_connection_status = ConnectionStatus::Connecting;
@@ -120,7 +120,7 @@ void AsioClientTcpConnection::resolve_handler(const asio::error_code& ec, asio::
     if(ec)
     {
         m_logger->error("IP resolver error: {}", ec.message());
-        m_current_connection_status = ConnectionStatus::NotConnected;
+        close();
         send_error(ec.message());
         return;
     }
-- 
2.43.0


From 165465c2aaca46d81a5c31f6e4a6be1f9170f9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:43 +0000
Subject: [PATCH 08/15] fix: keep accepting and counting right after an accept
 error

---
 lib/src/server/channel/AsioServer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/src/server/channel/AsioServer.cpp b/lib/src/server/channel/AsioServer.cpp
index 32e1cd0..802a9df 100644
--- a/lib/src/server/channel/AsioServer.cpp
+++ b/lib/src/server/channel/AsioServer.cpp
@@ -84,7 +84,9 @@ void AsioServer::handle_accept(std::shared_ptr<AsioServerTcpConnection> connecti
 
     if(ec)
     {
-        remove_connection(connection);
+        // This connection was not counted yet
+        m_connections.remove(connection);
+        start_accept();
         return;
     }
 
-- 
2.43.0


From 69b7ecd4c26037fea5898d178977ead8e8a6f740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:18 +0000
Subject: [PATCH 09/15] fix: keep the bytes being sent alive until the
 transmission completes

---
 lib/src/client/channel/AsioClientTcpConnection.cpp | 13 +++++++------
 lib/src/server/channel/AsioServerTcpConnection.cpp | 13 +++++++------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/lib/src/client/channel/AsioClientTcpConnection.cpp b/lib/src/client/channel/AsioClientTcpConnection.cpp
index 0ee171d..4e68a6d 100644
--- a/lib/src/client/channel/AsioClientTcpConnection.cpp
+++ b/lib/src/client/channel/AsioClientTcpConnection.cpp
@@ -203,8 +203,6 @@ void AsioClientTcpConnection::write_handler(const std::error_code& ec, std::size
 
     m_logger->debug("Sent {} bytes", bytes_transferred);
 
-    m_write_buffer = nullptr;
-
     auto connection_listener = m_connection_listener.lock();
     if(connection_listener)
     {
@@ -228,10 +226,13 @@ void AsioClientTcpConnection::send_buffer()
 
     if(m_write_buffer)
     {
-        m_tcp_socket.async_send(asio::buffer(m_write_buffer->as_rslice(), m_write_buffer->length()),
-                                m_executor->wrap(std::bind(&AsioClientTcpConnection::write_handler,
-                                                        std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this()),
-                                                        _1, _2)));
+        // The handler keeps the bytes alive until they are sent, whatever is submitted in between
+        std::shared_ptr<ser4cpp::Buffer> buffer = std::move(m_write_buffer);
+        auto self = std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this());
+        m_tcp_socket.async_send(asio::buffer(buffer->as_rslice(), buffer->length()),
+                                m_executor->wrap([buffer, self](const std::error_code& ec, std::size_t bytes_transferred) {
+                                    self->write_handler(ec, bytes_transferred);
+                                }));
     }
 }
 
diff --git a/lib/src/server/channel/AsioServerTcpConnection.cpp b/lib/src/server/channel/AsioServerTcpConnection.cpp
index ff301bf..a72587f 100644
--- a/lib/src/server/channel/AsioServerTcpConnection.cpp
+++ b/lib/src/server/channel/AsioServerTcpConnection.cpp
@@ -135,8 +135,6 @@ void AsioServerTcpConnection::write_handler(const std::error_code& ec, std::size
 
     m_logger->debug("Sent {} bytes", bytes_transferred);
 
-    m_write_buffer = nullptr;
-
     if(m_connection_listener)
     {
         m_connection_listener->on_write_done();
@@ -162,10 +160,13 @@ void AsioServerTcpConnection::send_buffer()
 
     if(m_write_buffer && m_is_connected)
     {
-        m_tcp_socket.async_send(asio::buffer(m_write_buffer->as_rslice(), m_write_buffer->length()),
-                                m_executor->wrap(std::bind(&AsioServerTcpConnection::write_handler,
-                                                        std::dynamic_pointer_cast<AsioServerTcpConnection>(shared_from_this()),
-                                                        _1, _2)));
+        // The handler keeps the bytes alive until they are sent, whatever is submitted in between
+        std::shared_ptr<ser4cpp::Buffer> buffer = std::move(m_write_buffer);
+        auto self = std::dynamic_pointer_cast<AsioServerTcpConnection>(shared_from_this());
+        m_tcp_socket.async_send(asio::buffer(buffer->as_rslice(), buffer->length()),
+                                m_executor->wrap([buffer, self](const std::error_code& ec, std::size_t bytes_transferred) {
+                                    self->write_handler(ec, bytes_transferred);
+                                }));
     }
 }
 
-- 
2.43.0


From 95bc94c73044e594b935c5abbbcc9a4178430732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:29 +0000
Subject: [PATCH 10/15] fix: one polling chain per scheduled request whatever
 the order of starts and stops

---
 lib/src/client/session/ScheduledRequest.h   |  2 ++
 lib/src/client/session/ScheduledRequest.hpp | 12 ++++++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/src/client/session/ScheduledRequest.h b/lib/src/client/session/ScheduledRequest.h
index 2af9ea3..5d5aa1c 100644
--- a/lib/src/client/session/ScheduledRequest.h
+++ b/lib/src/client/session/ScheduledRequest.h
@@ -16,6 +16,7 @@
 #ifndef MODBUS_SCHEDULEDREQUEST_H
 #define MODBUS_SCHEDULEDREQUEST_H
 
+#include <cstdint>
 #include <memory>
 #include "exe4cpp/IExecutor.h"
 #include "exe4cpp/Timer.h"
@@ -59,6 +60,7 @@ private:
     duration_t m_frequency;
 
     bool m_running;
+    uint64_t m_run;
     exe4cpp::Timer m_timer;
 };
 
diff --git a/lib/src/client/session/ScheduledRequest.hpp b/lib/src/client/session/ScheduledRequest.hpp
index 419ead5..bf2d0c3 100644
--- a/lib/src/client/session/ScheduledRequest.hpp
+++ b/lib/src/client/session/ScheduledRequest.hpp
@@ -38,6 +38,7 @@ ScheduledRequest<TRequest, TResponse>::ScheduledRequest(std::shared_ptr<IClientS
       m_timeout{timeout},
       m_frequency{frequency},
       m_running{false},
+      m_run{0},
       m_timer{nullptr}
 {
 
@@ -50,6 +51,7 @@ void ScheduledRequest<TRequest, TResponse>::start()
         if(!m_running)
         {
             m_running = true;
+            ++m_run;
             execute();
         }
     });
@@ -91,16 +93,22 @@ template<typename TRequest, typename TResponse>
 void ScheduledRequest<TRequest, TResponse>::execute()
 {
     // Send the request
+    const auto run = m_run;
     m_session->send_request(m_request, m_timeout, [=, self = shared_from_this()](const Expected<TResponse>& response) {
 
         // Call the response handler
         m_handler(response);
 
-        if(is_running())
+        // A response to a request sent before the last stop does not belong to this run
+        if(is_running() && m_run == run)
         {
             // Start the timer for the next execution
             m_timer = m_executor->start(m_frequency, [=, self2 = self]() {
-                execute();
+                // The run could have been stopped when this action was already due
+                if(is_running() && m_run == run)
+                {
+                    execute();
+                }
             });
         }
     });
-- 
2.43.0


From 690403e6bb7b298dd83c49fbd90be58360df7d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:15 +0000
Subject: [PATCH 11/15] fix: let a session added for a unit identifier already
 used replace the old one

---
 lib/src/server/channel/ServerChannelTcp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/server/channel/ServerChannelTcp.cpp b/lib/src/server/channel/ServerChannelTcp.cpp
index ee2dc43..19b336e 100644
--- a/lib/src/server/channel/ServerChannelTcp.cpp
+++ b/lib/src/server/channel/ServerChannelTcp.cpp
@@ -92,7 +92,7 @@ void ServerChannelTcp::add_session(const UnitIdentifier& unit_identifier, std::s
     m_executor->post([=, self=shared_from_this()]() {
         if(m_is_shutdown) return;
 
-        m_sessions.insert({unit_identifier, session});
+        m_sessions[unit_identifier] = session;
     });
 }
 
-- 
2.43.0


From 32ece7788d5d67bf83443786ad76907f73afb200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:35 +0000
Subject: [PATCH 12/15] fix: start the listening server of a channel only once

---
 lib/src/server/channel/ServerChannelTcp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/server/channel/ServerChannelTcp.cpp b/lib/src/server/channel/ServerChannelTcp.cpp
index 19b336e..0bf8849 100644
--- a/lib/src/server/channel/ServerChannelTcp.cpp
+++ b/lib/src/server/channel/ServerChannelTcp.cpp
@@ -58,7 +58,7 @@ void ServerChannelTcp::start()
     if(m_is_shutdown) return;
 
     m_executor->post([=, self=shared_from_this()] {
-        if(m_is_shutdown) return;
+        if(m_is_shutdown || m_is_started) return;
 
         m_server->start(std::make_shared<ServerConnectionListenerBuilder>(std::dynamic_pointer_cast<ServerChannelTcp>(shared_from_this())));
         m_is_started = true;
-- 
2.43.0


From be77420b4298ccab783dc38ba97974c7ee7a0cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:20 +0000
Subject: [PATCH 13/15] fix: connect from the adapter a client channel was
 given

---
 .../channel/AsioClientTcpConnection.cpp       | 53 ++++++++++++-------
 .../client/channel/AsioClientTcpConnection.h  |  3 +-
 2 files changed, 35 insertions(+), 21 deletions(-)

diff --git a/lib/src/client/channel/AsioClientTcpConnection.cpp b/lib/src/client/channel/AsioClientTcpConnection.cpp
index 4e68a6d..6a8687e 100644
--- a/lib/src/client/channel/AsioClientTcpConnection.cpp
+++ b/lib/src/client/channel/AsioClientTcpConnection.cpp
@@ -54,20 +54,6 @@ void AsioClientTcpConnection::send(const ser4cpp::rseq_t& data)
     {
         m_logger->info("Establishing connection to {}:{}", m_ip_endpoint.get_hostname(), m_ip_endpoint.get_port());
 
-        // Connect to the proper adapter
-        asio::error_code ec{};
-        const auto address = asio::ip::address::from_string(m_adapter.empty() ? "0.0.0.0" : m_adapter, ec);
-        if(ec) { m_logger->error("from_address error: {}", ec.message()); return; }
-
-        asio::ip::tcp::endpoint endpoint{};
-        endpoint.address(address);
-        endpoint.port(0);
-        m_tcp_socket.open(asio::ip::tcp::v4(), ec);
-        if(ec) { m_logger->error("socket open error: {}", ec.message()); return; }
-
-        m_tcp_socket.bind(endpoint, ec);
-        if(ec) { m_logger->error("socket bind error: {}", ec.message()); close(); return; }
-
         // Start connecting
         m_current_connection_status = ConnectionStatus::Connecting;
         asio::ip::tcp::resolver::query query{m_ip_endpoint.get_hostname(), std::to_string(m_ip_endpoint.get_port())};
@@ -125,19 +111,46 @@ void AsioClientTcpConnection::resolve_handler(const asio::error_code& ec, asio::
         return;
     }
 
-    asio::async_connect(m_tcp_socket,
-                        endpoints,
-                        m_executor->wrap(std::bind(&AsioClientTcpConnection::connect_handler,
-                                                std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this()),
-                                                _1)));
+    begin_connect(endpoints);
+}
+
+void AsioClientTcpConnection::begin_connect(asio::ip::tcp::resolver::iterator endpoints)
+{
+    // asio::async_connect would open the socket again for each endpoint, which loses the adapter it is bound to
+    asio::error_code ec{};
+    m_tcp_socket.close(ec);
+
+    // Connect from the proper adapter
+    const auto address = asio::ip::address::from_string(m_adapter.empty() ? "0.0.0.0" : m_adapter, ec);
+    if(!ec) m_tcp_socket.open(asio::ip::tcp::v4(), ec);
+    if(!ec) m_tcp_socket.bind(asio::ip::tcp::endpoint{address, 0}, ec);
+    if(ec)
+    {
+        m_logger->error("Adapter error: {}", ec.message());
+        close();
+        send_error(ec.message());
+        return;
+    }
+
+    m_tcp_socket.async_connect(endpoints->endpoint(),
+                               m_executor->wrap(std::bind(&AsioClientTcpConnection::connect_handler,
+                                                          std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this()),
+                                                          _1, endpoints)));
 }
 
-void AsioClientTcpConnection::connect_handler(const asio::error_code& ec)
+void AsioClientTcpConnection::connect_handler(const asio::error_code& ec, asio::ip::tcp::resolver::iterator endpoints)
 {
     if(m_is_shutdown) return;
 
     if(ec)
     {
+        // Try the next endpoint, unless the connection was closed in between
+        if(m_current_connection_status == ConnectionStatus::Connecting && ++endpoints != asio::ip::tcp::resolver::iterator{})
+        {
+            begin_connect(endpoints);
+            return;
+        }
+
         m_logger->error("Connection error: {}", ec.message());
         close();
         send_error(ec.message());
diff --git a/lib/src/client/channel/AsioClientTcpConnection.h b/lib/src/client/channel/AsioClientTcpConnection.h
index 2c2494e..3442ed4 100644
--- a/lib/src/client/channel/AsioClientTcpConnection.h
+++ b/lib/src/client/channel/AsioClientTcpConnection.h
@@ -51,10 +51,11 @@ private:
     };
 
     void resolve_handler(const asio::error_code& ec, asio::ip::tcp::resolver::iterator endpoints);
-    void connect_handler(const asio::error_code& ec);
+    void connect_handler(const asio::error_code& ec, asio::ip::tcp::resolver::iterator endpoints);
     void read_handler(const asio::error_code& ec, std::size_t bytes_transferred);
     void write_handler(const asio::error_code& ec, std::size_t bytes_transferred);
 
+    void begin_connect(asio::ip::tcp::resolver::iterator endpoints);
     void begin_read();
     void send_buffer();
     void send_error(const std::string& message);
-- 
2.43.0


From 4dd52c8d430356111c3a6699996c94d25b0652a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:13 +0000
Subject: [PATCH 14/15] fix: a connection that failed is closed before the
 failure is reported, and closing it is no failure

---
 .../channel/AsioClientTcpConnection.cpp       | 42 +++++++++++--------
 .../client/channel/AsioClientTcpConnection.h  |  1 +
 .../channel/AsioServerTcpConnection.cpp       | 36 +++++++++-------
 .../server/channel/AsioServerTcpConnection.h  |  1 +
 4 files changed, 47 insertions(+), 33 deletions(-)

diff --git a/lib/src/client/channel/AsioClientTcpConnection.cpp b/lib/src/client/channel/AsioClientTcpConnection.cpp
index 6a8687e..7cf953a 100644
--- a/lib/src/client/channel/AsioClientTcpConnection.cpp
+++ b/lib/src/client/channel/AsioClientTcpConnection.cpp
@@ -76,16 +76,7 @@ void AsioClientTcpConnection::close()
     m_executor->post([=, self = shared_from_this()] () {
         if(m_is_shutdown) return;
 
-        m_current_connection_status = ConnectionStatus::NotConnected;
-
-        if(m_tcp_socket.is_open())
-        {
-            m_logger->info("Closing connection");
-
-            std::error_code ec;
-            m_tcp_socket.shutdown(asio::ip::tcp::socket::shutdown_both, ec);
-            m_tcp_socket.close(ec);
-        }
+        close_socket();
     });
 }
 
@@ -106,7 +97,7 @@ void AsioClientTcpConnection::resolve_handler(const asio::error_code& ec, asio::
     if(ec)
     {
         m_logger->error("IP resolver error: {}", ec.message());
-        close();
+        close_socket();
         send_error(ec.message());
         return;
     }
@@ -127,7 +118,7 @@ void AsioClientTcpConnection::begin_connect(asio::ip::tcp::resolver::iterator en
     if(ec)
     {
         m_logger->error("Adapter error: {}", ec.message());
-        close();
+        close_socket();
         send_error(ec.message());
         return;
     }
@@ -152,7 +143,7 @@ void AsioClientTcpConnection::connect_handler(const asio::error_code& ec, asio::
         }
 
         m_logger->error("Connection error: {}", ec.message());
-        close();
+        close_socket();
         send_error(ec.message());
         return;
     }
@@ -173,19 +164,20 @@ void AsioClientTcpConnection::connect_handler(const asio::error_code& ec, asio::
 
 void AsioClientTcpConnection::read_handler(const asio::error_code& ec, std::size_t bytes_transferred)
 {
-    if(m_is_shutdown) return;
+    // Closing the connection ends its operations, which is no error
+    if(m_is_shutdown || m_current_connection_status != ConnectionStatus::Connected) return;
 
     if(ec)
     {
         if(ec == asio::error::misc_errors::eof)
         {
             m_logger->info("Connection gracefully closed by peer.");
-            close();
+            close_socket();
         }
         else
         {
             m_logger->error("Read error: {}", ec.message());
-            close();
+            close_socket();
             send_error(ec.message());
         }
         return;
@@ -204,12 +196,12 @@ void AsioClientTcpConnection::read_handler(const asio::error_code& ec, std::size
 
 void AsioClientTcpConnection::write_handler(const std::error_code& ec, std::size_t bytes_transferred)
 {
-    if(m_is_shutdown) return;
+    if(m_is_shutdown || m_current_connection_status != ConnectionStatus::Connected) return;
 
     if(ec)
     {
         m_logger->error("Write error: {}", ec.message());
-        close();
+        close_socket();
         send_error(ec.message());
         return;
     }
@@ -223,6 +215,20 @@ void AsioClientTcpConnection::write_handler(const std::error_code& ec, std::size
     }
 }
 
+void AsioClientTcpConnection::close_socket()
+{
+    m_current_connection_status = ConnectionStatus::NotConnected;
+
+    if(m_tcp_socket.is_open())
+    {
+        m_logger->info("Closing connection");
+
+        std::error_code ec;
+        m_tcp_socket.shutdown(asio::ip::tcp::socket::shutdown_both, ec);
+        m_tcp_socket.close(ec);
+    }
+}
+
 void AsioClientTcpConnection::begin_read()
 {
     if(m_is_shutdown) return;
diff --git a/lib/src/client/channel/AsioClientTcpConnection.h b/lib/src/client/channel/AsioClientTcpConnection.h
index 3442ed4..bca8c67 100644
--- a/lib/src/client/channel/AsioClientTcpConnection.h
+++ b/lib/src/client/channel/AsioClientTcpConnection.h
@@ -57,6 +57,7 @@ private:
 
     void begin_connect(asio::ip::tcp::resolver::iterator endpoints);
     void begin_read();
+    void close_socket();
     void send_buffer();
     void send_error(const std::string& message);
 
diff --git a/lib/src/server/channel/AsioServerTcpConnection.cpp b/lib/src/server/channel/AsioServerTcpConnection.cpp
index a72587f..734a329 100644
--- a/lib/src/server/channel/AsioServerTcpConnection.cpp
+++ b/lib/src/server/channel/AsioServerTcpConnection.cpp
@@ -57,17 +57,7 @@ void AsioServerTcpConnection::close()
     m_executor->post([=, self=shared_from_this()]() {
         if(m_is_shutdown) return;
 
-        m_is_connected = false;
-
-        if(m_tcp_socket.is_open())
-        {
-            m_logger->info("Closing connection");
-
-            std::error_code ec;
-            m_tcp_socket.shutdown(asio::ip::tcp::socket::shutdown_both, ec);
-            m_tcp_socket.close(ec);
-            notify_close();
-        }
+        close_socket();
     });
 }
 
@@ -101,12 +91,13 @@ asio::ip::tcp::socket& AsioServerTcpConnection::get_socket()
 
 void AsioServerTcpConnection::read_handler(const asio::error_code& ec, std::size_t bytes_transferred)
 {
-    if(m_is_shutdown) return;
+    // Closing the connection ends its operations, which is no error
+    if(m_is_shutdown || !m_is_connected) return;
 
     if(ec)
     {
         m_logger->error("Read error: {}", ec.message());
-        close();
+        close_socket();
         send_error(ec.message());
         return;
     }
@@ -123,12 +114,12 @@ void AsioServerTcpConnection::read_handler(const asio::error_code& ec, std::size
 
 void AsioServerTcpConnection::write_handler(const std::error_code& ec, std::size_t bytes_transferred)
 {
-    if(m_is_shutdown) return;
+    if(m_is_shutdown || !m_is_connected) return;
 
     if(ec)
     {
         m_logger->error("Write error: {}", ec.message());
-        close();
+        close_socket();
         send_error(ec.message());
         return;
     }
@@ -141,6 +132,21 @@ void AsioServerTcpConnection::write_handler(const std::error_code& ec, std::size
     }
 }
 
+void AsioServerTcpConnection::close_socket()
+{
+    m_is_connected = false;
+
+    if(m_tcp_socket.is_open())
+    {
+        m_logger->info("Closing connection");
+
+        std::error_code ec;
+        m_tcp_socket.shutdown(asio::ip::tcp::socket::shutdown_both, ec);
+        m_tcp_socket.close(ec);
+        notify_close();
+    }
+}
+
 void AsioServerTcpConnection::begin_read()
 {
     if(m_is_shutdown) return;
diff --git a/lib/src/server/channel/AsioServerTcpConnection.h b/lib/src/server/channel/AsioServerTcpConnection.h
index f5570ed..e6aafc4 100644
--- a/lib/src/server/channel/AsioServerTcpConnection.h
+++ b/lib/src/server/channel/AsioServerTcpConnection.h
@@ -50,6 +50,7 @@ private:
     void write_handler(const asio::error_code& ec, std::size_t bytes_transferred);
 
     void begin_read();
+    void close_socket();
     void send_buffer();
     void send_error(const std::string& message);
     void notify_close();
-- 
2.43.0


From 0787f13aa8bff4d12135b5239e92be6472f597ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 15/15] fix: transmit what is submitted whole and in order

---
 .../channel/AsioClientTcpConnection.cpp       | 35 ++++++++++++++-----
 .../client/channel/AsioClientTcpConnection.h  |  5 +++
 .../channel/AsioServerTcpConnection.cpp       | 35 ++++++++++++++-----
 .../server/channel/AsioServerTcpConnection.h  |  5 +++
 4 files changed, 64 insertions(+), 16 deletions(-)

diff --git a/lib/src/client/channel/AsioClientTcpConnection.cpp b/lib/src/client/channel/AsioClientTcpConnection.cpp
index 7cf953a..c2ea2ec 100644
--- a/lib/src/client/channel/AsioClientTcpConnection.cpp
+++ b/lib/src/client/channel/AsioClientTcpConnection.cpp
@@ -34,7 +34,8 @@ AsioClientTcpConnection::AsioClientTcpConnection(std::shared_ptr<Logger> logger,
           m_resolver{*executor->get_context()},
           m_tcp_socket{*executor->get_context()},
           m_is_shutdown{false},
-          m_current_connection_status{ConnectionStatus::NotConnected}
+          m_current_connection_status{ConnectionStatus::NotConnected},
+          m_is_writing{false}
 {
 
 }
@@ -196,6 +197,8 @@ void AsioClientTcpConnection::read_handler(const asio::error_code& ec, std::size
 
 void AsioClientTcpConnection::write_handler(const std::error_code& ec, std::size_t bytes_transferred)
 {
+    m_is_writing = false;
+
     if(m_is_shutdown || m_current_connection_status != ConnectionStatus::Connected) return;
 
     if(ec)
@@ -213,11 +216,14 @@ void AsioClientTcpConnection::write_handler(const std::error_code& ec, std::size
     {
         connection_listener->on_write_done();
     }
+
+    send_next();
 }
 
 void AsioClientTcpConnection::close_socket()
 {
     m_current_connection_status = ConnectionStatus::NotConnected;
+    m_write_queue.clear();
 
     if(m_tcp_socket.is_open())
     {
@@ -245,16 +251,29 @@ void AsioClientTcpConnection::send_buffer()
 
     if(m_write_buffer)
     {
-        // The handler keeps the bytes alive until they are sent, whatever is submitted in between
-        std::shared_ptr<ser4cpp::Buffer> buffer = std::move(m_write_buffer);
-        auto self = std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this());
-        m_tcp_socket.async_send(asio::buffer(buffer->as_rslice(), buffer->length()),
-                                m_executor->wrap([buffer, self](const std::error_code& ec, std::size_t bytes_transferred) {
-                                    self->write_handler(ec, bytes_transferred);
-                                }));
+        m_write_queue.push_back(std::move(m_write_buffer));
+        send_next();
     }
 }
 
+void AsioClientTcpConnection::send_next()
+{
+    // One transmission at a time, else the bytes of one could get between those of another
+    if(m_is_writing || m_write_queue.empty()) return;
+
+    // The handler keeps the bytes alive until they are sent, whatever is submitted in between
+    std::shared_ptr<ser4cpp::Buffer> buffer = std::move(m_write_queue.front());
+    m_write_queue.pop_front();
+    m_is_writing = true;
+
+    auto self = std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this());
+    asio::async_write(m_tcp_socket,
+                      asio::buffer(buffer->as_rslice(), buffer->length()),
+                      m_executor->wrap([buffer, self](const std::error_code& ec, std::size_t bytes_transferred) {
+                          self->write_handler(ec, bytes_transferred);
+                      }));
+}
+
 void AsioClientTcpConnection::send_error(const std::string& message)
 {
     if(m_is_shutdown) return;
diff --git a/lib/src/client/channel/AsioClientTcpConnection.h b/lib/src/client/channel/AsioClientTcpConnection.h
index bca8c67..34decbf 100644
--- a/lib/src/client/channel/AsioClientTcpConnection.h
+++ b/lib/src/client/channel/AsioClientTcpConnection.h
@@ -17,6 +17,8 @@
 #define MODBUS_ASIOCLIENTTCPCONNECTION_H
 
 #include <array>
+#include <deque>
+#include <memory>
 #include <string>
 #include "exe4cpp/asio/StrandExecutor.h"
 #include "ser4cpp/container/Buffer.h"
@@ -59,6 +61,7 @@ private:
     void begin_read();
     void close_socket();
     void send_buffer();
+    void send_next();
     void send_error(const std::string& message);
 
     std::shared_ptr<Logger> m_logger;
@@ -72,6 +75,8 @@ private:
     ConnectionStatus m_current_connection_status;
     std::array<uint8_t, 4096> m_read_buffer;
     std::unique_ptr<ser4cpp::Buffer> m_write_buffer;
+    std::deque<std::unique_ptr<ser4cpp::Buffer>> m_write_queue;
+    bool m_is_writing;
 
     std::weak_ptr<IConnectionListener> m_connection_listener;
 };
diff --git a/lib/src/server/channel/AsioServerTcpConnection.cpp b/lib/src/server/channel/AsioServerTcpConnection.cpp
index 734a329..1e551de 100644
--- a/lib/src/server/channel/AsioServerTcpConnection.cpp
+++ b/lib/src/server/channel/AsioServerTcpConnection.cpp
@@ -32,7 +32,8 @@ AsioServerTcpConnection::AsioServerTcpConnection(std::shared_ptr<Logger> logger,
           m_server{server},
           m_tcp_socket{*executor->get_context()},
           m_is_shutdown{false},
-          m_is_connected{false}
+          m_is_connected{false},
+          m_is_writing{false}
 {
 
 }
@@ -114,6 +115,8 @@ void AsioServerTcpConnection::read_handler(const asio::error_code& ec, std::size
 
 void AsioServerTcpConnection::write_handler(const std::error_code& ec, std::size_t bytes_transferred)
 {
+    m_is_writing = false;
+
     if(m_is_shutdown || !m_is_connected) return;
 
     if(ec)
@@ -130,11 +133,14 @@ void AsioServerTcpConnection::write_handler(const std::error_code& ec, std::size
     {
         m_connection_listener->on_write_done();
     }
+
+    send_next();
 }
 
 void AsioServerTcpConnection::close_socket()
 {
     m_is_connected = false;
+    m_write_queue.clear();
 
     if(m_tcp_socket.is_open())
     {
@@ -166,16 +172,29 @@ void AsioServerTcpConnection::send_buffer()
 
     if(m_write_buffer && m_is_connected)
     {
-        // The handler keeps the bytes alive until they are sent, whatever is submitted in between
-        std::shared_ptr<ser4cpp::Buffer> buffer = std::move(m_write_buffer);
-        auto self = std::dynamic_pointer_cast<AsioServerTcpConnection>(shared_from_this());
-        m_tcp_socket.async_send(asio::buffer(buffer->as_rslice(), buffer->length()),
-                                m_executor->wrap([buffer, self](const std::error_code& ec, std::size_t bytes_transferred) {
-                                    self->write_handler(ec, bytes_transferred);
-                                }));
+        m_write_queue.push_back(std::move(m_write_buffer));
+        send_next();
     }
 }
 
+void AsioServerTcpConnection::send_next()
+{
+    // One transmission at a time, else the bytes of one could get between those of another
+    if(m_is_writing || m_write_queue.empty()) return;
+
+    // The handler keeps the bytes alive until they are sent, whatever is submitted in between
+    std::shared_ptr<ser4cpp::Buffer> buffer = std::move(m_write_queue.front());
+    m_write_queue.pop_front();
+    m_is_writing = true;
+
+    auto self = std::dynamic_pointer_cast<AsioServerTcpConnection>(shared_from_this());
+    asio::async_write(m_tcp_socket,
+                      asio::buffer(buffer->as_rslice(), buffer->length()),
+                      m_executor->wrap([buffer, self](const std::error_code& ec, std::size_t bytes_transferred) {
+                          self->write_handler(ec, bytes_transferred);
+                      }));
+}
+
 void AsioServerTcpConnection::send_error(const std::string& message)
 {
     if(m_is_shutdown) return;
diff --git a/lib/src/server/channel/AsioServerTcpConnection.h b/lib/src/server/channel/AsioServerTcpConnection.h
index e6aafc4..9b32bed 100644
--- a/lib/src/server/channel/AsioServerTcpConnection.h
+++ b/lib/src/server/channel/AsioServerTcpConnection.h
@@ -17,6 +17,8 @@
 #define MODBUS_ASIOSERVERTCPCONNECTION_H
 
 #include <array>
+#include <deque>
+#include <memory>
 #include "exe4cpp/asio/StrandExecutor.h"
 #include "ser4cpp/container/Buffer.h"
 
@@ -52,6 +54,7 @@ private:
     void begin_read();
     void close_socket();
     void send_buffer();
+    void send_next();
     void send_error(const std::string& message);
     void notify_close();
 
@@ -64,6 +67,8 @@ private:
     bool m_is_connected;
     std::array<uint8_t, 4096> m_read_buffer;
     std::unique_ptr<ser4cpp::Buffer> m_write_buffer;
+    std::deque<std::unique_ptr<ser4cpp::Buffer>> m_write_queue;
+    bool m_is_writing;
 
     std::shared_ptr<IConnectionListener> m_connection_listener;
 };
-- 
2.43.0

