From 53603a64f00b5f3127ca508999637579c9cdc925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:54 +0000
Subject: [PATCH 01/37] fix: IMemoryStream::write_to keeps bytes a partial
 write did not take

---
 include/crab/streams.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/crab/streams.hxx b/include/crab/streams.hxx
index 8dc83ae..8929942 100644
--- a/include/crab/streams.hxx
+++ b/include/crab/streams.hxx
@@ -202,7 +202,7 @@ CRAB_INLINE size_t IMemoryStream::write_to(OStream &out, size_t max_count) {
 			break;
 		size_t count = out.write_some(data, rc);
 		data += count;
-		si -= rc;
+		si -= count;
 		max_count -= count;
 		total_count += count;
 		if (count == 0)
-- 
2.43.0


From 2fbc63f3128add94c063d1feecd30a91b9c42b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:12 +0000
Subject: [PATCH 02/37] fix: CombinedIStream::write_to counts what the first
 part delivered

---
 include/crab/streams.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/crab/streams.hpp b/include/crab/streams.hpp
index 1c35ca8..3bd069f 100644
--- a/include/crab/streams.hpp
+++ b/include/crab/streams.hpp
@@ -295,13 +295,14 @@ public:
 	}
 	using IStream::read_some;
 	size_t write_to(OStream &out, size_t max_count) override {
+		size_t count = 0;
 		if (!a->empty()) {
-			size_t count = a->write_to(out, max_count);
+			count = a->write_to(out, max_count);
 			max_count -= count;
 			if (!a->empty())
 				return count;
 		}
-		return b->write_to(out, max_count);
+		return count + b->write_to(out, max_count);
 	}
 	using IFiniteStream::write_to;
 };
-- 
2.43.0


From 0d61a740f0cafe36984b1514f018627fa09026b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:07 +0000
Subject: [PATCH 03/37] fix: UDP read_datagram does not strand queued datagrams
 behind a socket error

---
 include/crab/network_posix.hxx | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/crab/network_posix.hxx b/include/crab/network_posix.hxx
index 0e3aa01..b24c8bb 100644
--- a/include/crab/network_posix.hxx
+++ b/include/crab/network_posix.hxx
@@ -143,12 +143,19 @@ CRAB_INLINE optional<size_t> read_datagram(const FileDescriptor &fd,
 	// (while correct behaviour is reading, truncating to 0, returning EMSGSIZE).
 	// We protect clients semantic by reading into our own small buffer
 	uint8_t workaround_buffer[1];  // Uninitialized
-	ssize_t result = recvfrom(fd.get_value(),
-	    count ? data : workaround_buffer,
-	    count ? count : sizeof(workaround_buffer),
-	    details::CRAB_MSG_NOSIGNAL,
-	    in_addr.impl_get_sockaddr(),
-	    &in_len);
+	ssize_t result = -1;
+	// Pending socket error (ICMP report, etc.) is returned once in place of datagram, which stays in the queue.
+	// If we stopped there, we would not be woke up by epoll any more, so we repeat (limited, if error is persistent).
+	for (int attempts = 0; attempts != 16; ++attempts) {
+		result = recvfrom(fd.get_value(),
+		    count ? data : workaround_buffer,
+		    count ? count : sizeof(workaround_buffer),
+		    details::CRAB_MSG_NOSIGNAL,
+		    in_addr.impl_get_sockaddr(),
+		    &in_len);
+		if (result >= 0 || errno == EAGAIN || errno == EWOULDBLOCK || errno == EMSGSIZE)
+			break;
+	}
 	if (result > static_cast<ssize_t>(count))  // Can only happen when reading into workaround_buffer
 		result = static_cast<ssize_t>(count);
 	RunLoop::current()->stats.push_record("R(recvfrom)", fd.get_value(), int(result));
@@ -163,8 +170,6 @@ CRAB_INLINE optional<size_t> read_datagram(const FileDescriptor &fd,
 		if (errno != EMSGSIZE) {
 			// Sometimes (for example during adding/removing network adapters), errors could be returned on Linux
 			// We will ignore all errors here, in hope they will disappear soon
-			// TODO - if we get here, we will not be woke up by epoll any more, so
-			// we need to classify all errors here, like in TCPAcceptor
 			return {};
 		}
 		// Truncation is not an error, return true so clients continue reading
-- 
2.43.0


From 4426f33c1da0c1879f5d25c52aeda648bcea4bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:47 +0000
Subject: [PATCH 04/37] fix: bare LF before request line must be skipped like
 CRLF

---
 include/crab/http/request_parser.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/crab/http/request_parser.hxx b/include/crab/http/request_parser.hxx
index 95b3fe8..fd7625e 100644
--- a/include/crab/http/request_parser.hxx
+++ b/include/crab/http/request_parser.hxx
@@ -31,7 +31,7 @@ CRAB_INLINE RequestParser::State RequestParser::consume(char input) {
 		if (input == '\r')
 			return METHOD_START_LF;
 		if (input == '\n')
-			return METHOD;
+			return METHOD_START;
 		if (!is_char(input) || is_ctl(input) || is_tspecial(input))
 			throw std::runtime_error{"Invalid character at method start"};
 		req.method.push_back(input);
-- 
2.43.0


From 0a13e9deda482a3c14b32f8c7390625cc98a5df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:47 +0000
Subject: [PATCH 05/37] fix: accept CRLF after space at the end of request line

---
 include/crab/http/request_parser.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/crab/http/request_parser.hxx b/include/crab/http/request_parser.hxx
index fd7625e..6cdf408 100644
--- a/include/crab/http/request_parser.hxx
+++ b/include/crab/http/request_parser.hxx
@@ -157,7 +157,9 @@ CRAB_INLINE RequestParser::State RequestParser::consume(char input) {
 	case STATUS_LINE_CR:
 		if (is_sp(input))
 			return STATUS_LINE_CR;
-		if (input != '\n')
+		if (input == '\n')
+			return FIRST_HEADER_LINE_START;
+		if (input != '\r')
 			throw std::runtime_error{"Newline is expected"};
 		return STATUS_LINE_LF;
 	case STATUS_LINE_LF:
-- 
2.43.0


From da55b86f89aedbb118f3b97f1293e8328a5d1f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:47 +0000
Subject: [PATCH 06/37] fix: reject unsupported single digit http major version

---
 include/crab/http/request_parser.hxx  | 2 ++
 include/crab/http/response_parser.hxx | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/crab/http/request_parser.hxx b/include/crab/http/request_parser.hxx
index 6cdf408..cccd582 100644
--- a/include/crab/http/request_parser.hxx
+++ b/include/crab/http/request_parser.hxx
@@ -126,6 +126,8 @@ CRAB_INLINE RequestParser::State RequestParser::consume(char input) {
 		if (!isdigit(input))
 			throw std::runtime_error{"Invalid http version major start, must be digit"};
 		req.http_version_major = input - '0';
+		if (req.http_version_major > 1)
+			throw std::runtime_error{"Unsupported http version"};
 		return HTTP_VERSION_MAJOR;
 	case HTTP_VERSION_MAJOR:
 		if (input == '.')
diff --git a/include/crab/http/response_parser.hxx b/include/crab/http/response_parser.hxx
index ca7559c..7057372 100644
--- a/include/crab/http/response_parser.hxx
+++ b/include/crab/http/response_parser.hxx
@@ -48,6 +48,8 @@ CRAB_INLINE ResponseParser::State ResponseParser::consume(char input) {
 		if (!isdigit(input))
 			throw std::runtime_error{"Invalid http version major start, must be digit"};
 		req.http_version_major = input - '0';
+		if (req.http_version_major > 1)
+			throw std::runtime_error{"Unsupported http version"};
 		return HTTP_VERSION_MAJOR;
 	case HTTP_VERSION_MAJOR:
 		if (input == '.')
-- 
2.43.0


From 4b99ebf631e06cb06bea55baaa7bb2dd25e2eb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:47 +0000
Subject: [PATCH 07/37] fix: order check of transfer encodings was inverted

---
 include/crab/http/request_parser.hxx  | 4 ++--
 include/crab/http/response_parser.hxx | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/crab/http/request_parser.hxx b/include/crab/http/request_parser.hxx
index cccd582..ad8b5e2 100644
--- a/include/crab/http/request_parser.hxx
+++ b/include/crab/http/request_parser.hxx
@@ -266,14 +266,14 @@ CRAB_INLINE void RequestParser::process_ready_header() {
 	if (header.name == string_view{"transfer-encoding"}) {
 		tolower(header.value);
 		if (header.value == string_view{"chunked"}) {
-			if (!req.transfer_encodings.empty())
-				throw std::runtime_error{"chunk encoding must be applied last"};
 			req.transfer_encoding_chunked = true;
 			return;
 		}
 		if (header.value == string_view{"identity"}) {
 			return;  // like chunked, it is transparent to user
 		}
+		if (req.transfer_encoding_chunked)
+			throw std::runtime_error{"chunk encoding must be applied last"};
 		req.transfer_encodings.push_back(header.value);
 		return;
 	}
diff --git a/include/crab/http/response_parser.hxx b/include/crab/http/response_parser.hxx
index 7057372..d4c137b 100644
--- a/include/crab/http/response_parser.hxx
+++ b/include/crab/http/response_parser.hxx
@@ -219,14 +219,14 @@ CRAB_INLINE void ResponseParser::process_ready_header() {
 	if (header.name == string_view{"transfer-encoding"}) {
 		tolower(header.value);
 		if (header.value == string_view{"chunked"}) {
-			if (!req.transfer_encodings.empty())
-				throw std::runtime_error{"chunk encoding must be applied last"};
 			req.transfer_encoding_chunked = true;
 			return;
 		}
 		if (header.value == string_view{"identity"}) {
 			return;  // like chunked, it is transparent to user
 		}
+		if (req.transfer_encoding_chunked)
+			throw std::runtime_error{"chunk encoding must be applied last"};
 		req.transfer_encodings.push_back(header.value);
 		return;
 	}
-- 
2.43.0


From 4cc72a437f5b95ecd682f5c81e7d15a524aac818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:47 +0000
Subject: [PATCH 08/37] fix: tolerate bare LF after trailer line

---
 include/crab/http/request_parser.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/crab/http/request_parser.hxx b/include/crab/http/request_parser.hxx
index ad8b5e2..a9dcb13 100644
--- a/include/crab/http/request_parser.hxx
+++ b/include/crab/http/request_parser.hxx
@@ -453,6 +453,8 @@ CRAB_INLINE BodyParser::State BodyParser::consume(uint8_t input) {
 		trailers_total_length += 1;
 		if (input == '\r')
 			return TRAILER_LF;
+		if (input == '\n')
+			return TRAILER_LINE_START;
 		return TRAILER;
 	case TRAILER_LF:
 		trailers_total_length += 1;
-- 
2.43.0


From 4f9b7ca618f2308cd4f9cbd0b6b88f04716c6807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:47 +0000
Subject: [PATCH 09/37] fix: get_uri without query returned empty string,
 set_uri kept old query

---
 include/crab/http/types.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/crab/http/types.hxx b/include/crab/http/types.hxx
index 2111b47..6692511 100644
--- a/include/crab/http/types.hxx
+++ b/include/crab/http/types.hxx
@@ -193,13 +193,14 @@ CRAB_INLINE void RequestHeader::set_uri(const std::string &uri) {
 	auto pos = uri.find('?');
 	if (pos == std::string::npos) {
 		path = uri;
+		query_string.clear();
 	} else {
 		path         = uri.substr(0, pos);
 		query_string = uri.substr(pos + 1);
 	}
 }
 
-CRAB_INLINE std::string RequestHeader::get_uri() const { return query_string.empty() ? query_string : path + "?" + query_string; }
+CRAB_INLINE std::string RequestHeader::get_uri() const { return query_string.empty() ? path : path + "?" + query_string; }
 
 CRAB_INLINE std::string RequestHeader::to_string() const {
 	std::stringstream ss;
-- 
2.43.0


From 142af8cd8f5d49468682cce9a7abe091fde528a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:47 +0000
Subject: [PATCH 10/37] fix: server field of response was never sent

---
 include/crab/http/types.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/crab/http/types.hxx b/include/crab/http/types.hxx
index 6692511..66f3aa1 100644
--- a/include/crab/http/types.hxx
+++ b/include/crab/http/types.hxx
@@ -233,6 +233,8 @@ CRAB_INLINE std::string ResponseHeader::to_string() const {
 	   << (status_text.empty() ? status_to_string(status) : status_text) << "\r\n";
 	if (!date.empty())
 		ss << "date: " << date << "\r\n";
+	if (!server.empty())
+		ss << "server: " << server << "\r\n";
 	details::to_string_common(*this, ss);
 	if (!sec_websocket_accept.empty())
 		ss << "sec-websocket-accept: " << sec_websocket_accept << "\r\n";
-- 
2.43.0


From 3924ea936f310253bdad6e7299e9d73af007f06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:47 +0000
Subject: [PATCH 11/37] fix: query pairs ended inside incomplete percent escape

---
 include/crab/http/query_parser.hxx | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/crab/http/query_parser.hxx b/include/crab/http/query_parser.hxx
index 0500109..8511ba7 100644
--- a/include/crab/http/query_parser.hxx
+++ b/include/crab/http/query_parser.hxx
@@ -87,6 +87,11 @@ CRAB_INLINE QueryParser::State QueryParser::consume(char input) {
 			key_.push_back(input);
 		return KEY;
 	case KEY_PERCENT1: {
+		if (input == '&') {
+			key_.push_back('%');
+			persist_pair();
+			return KEY;
+		}
 		if (input == '=') {
 			key_.push_back('%');
 			return VALUE;
@@ -101,6 +106,12 @@ CRAB_INLINE QueryParser::State QueryParser::consume(char input) {
 		return KEY_PERCENT2;
 	}
 	case KEY_PERCENT2: {
+		if (input == '&') {
+			key_.push_back('%');
+			key_.push_back(percent1_hex_sym);
+			persist_pair();
+			return KEY;
+		}
 		if (input == '=') {
 			key_.push_back('%');
 			key_.push_back(percent1_hex_sym);
@@ -130,6 +141,7 @@ CRAB_INLINE QueryParser::State QueryParser::consume(char input) {
 	case VALUE_PERCENT1: {
 		if (input == '&') {
 			value_.push_back('%');
+			persist_pair();
 			return KEY;
 		}
 		int digit1 = from_hex_digit(input);
@@ -142,10 +154,11 @@ CRAB_INLINE QueryParser::State QueryParser::consume(char input) {
 		return VALUE_PERCENT2;
 	}
 	case VALUE_PERCENT2: {
-		if (input == '=') {
+		if (input == '&') {
 			value_.push_back('%');
 			value_.push_back(percent1_hex_sym);
-			return VALUE;
+			persist_pair();
+			return KEY;
 		}
 		int digit2 = from_hex_digit(input);
 		if (digit2 < 0) {
-- 
2.43.0


From 4a3a233d18a2e051dcac2d130fd3ef1e2d058deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:44 +0000
Subject: [PATCH 12/37] fix: accept continuation frames of fragmented web
 messages

---
 include/crab/http/web_message_parser.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/crab/http/web_message_parser.hpp b/include/crab/http/web_message_parser.hpp
index 75cf882..1eecf1e 100644
--- a/include/crab/http/web_message_parser.hpp
+++ b/include/crab/http/web_message_parser.hpp
@@ -46,6 +46,7 @@ public:
 
 	static bool is_opcode_supported(int opcode) {
 		switch (opcode) {
+		case 0:  // Continuation of fragmented message
 		case static_cast<int>(WebMessageOpcode::TEXT):
 		case static_cast<int>(WebMessageOpcode::BINARY):
 		case static_cast<int>(WebMessageOpcode::CLOSE):
-- 
2.43.0


From 6eea954cdfc7127fafe34a72b7196bea72d23994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:44 +0000
Subject: [PATCH 13/37] fix: last dot segment and slash after incomplete escape
 in URI path

---
 include/crab/http/query_parser.hxx | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/crab/http/query_parser.hxx b/include/crab/http/query_parser.hxx
index 8511ba7..cbf0b37 100644
--- a/include/crab/http/query_parser.hxx
+++ b/include/crab/http/query_parser.hxx
@@ -323,6 +323,11 @@ CRAB_INLINE URIParser::State URIParser::consume(char input) {
 			cur_path_.push_back('%');
 			return QUERY;
 		}
+		if (input == '/') {
+			cur_path_.push_back('%');
+			persist_path_component();
+			return PATH;
+		}
 		int digit1 = from_hex_digit(input);
 		if (digit1 < 0) {
 			cur_path_.push_back('%');
@@ -338,6 +343,12 @@ CRAB_INLINE URIParser::State URIParser::consume(char input) {
 			cur_path_.push_back(percent1_hex_sym);
 			return QUERY;
 		}
+		if (input == '/') {
+			cur_path_.push_back('%');
+			cur_path_.push_back(percent1_hex_sym);
+			persist_path_component();
+			return PATH;
+		}
 		int digit2 = from_hex_digit(input);
 		if (digit2 < 0) {
 			cur_path_.push_back('%');
@@ -365,6 +376,8 @@ CRAB_INLINE URIParser::State URIParser::consume_end() {
 		state = PATH;
 	}
 
+	if (cur_path_ == string_view{".."} || cur_path_ == string_view{"."})
+		persist_path_component();  // last component is then empty
 	for (auto &&pc : path_components_)
 		uri.path.append('/' + pc);
 	uri.path.append('/' + cur_path_);
-- 
2.43.0


From b7147f41930f072a75d032fed944592b3e742f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:27 +0000
Subject: [PATCH 14/37] fix: keep_alive was lost when written with HTTP version
 other than 1.0 and 1.1

---
 include/crab/http/types.hxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/crab/http/types.hxx b/include/crab/http/types.hxx
index 66f3aa1..9dea9ef 100644
--- a/include/crab/http/types.hxx
+++ b/include/crab/http/types.hxx
@@ -26,9 +26,10 @@ CRAB_INLINE void to_string_common(const http::RequestResponseHeader &req, std::s
 	if (req.content_length) {
 		ss << "content-length: " << *req.content_length << "\r\n";
 	}
-	if (req.http_version_major == 1 && req.http_version_minor == 0 && req.keep_alive) {
+	const bool default_keep_alive = req.http_version_major == 1 && req.http_version_minor >= 1;  // same as in parsers
+	if (req.keep_alive && !default_keep_alive) {
 		ss << "connection: keep-alive\r\n";
-	} else if (req.http_version_major == 1 && req.http_version_minor == 1 && !req.keep_alive) {
+	} else if (!req.keep_alive && default_keep_alive) {
 		ss << "connection: close\r\n";
 	} else if (req.connection_upgrade && req.upgrade_websocket) {
 		ss << "connection: upgrade\r\n";
-- 
2.43.0


From 9dfc48dcad1fc3cf80c7a1eba723be6722618cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:28 +0000
Subject: [PATCH 15/37] fix: buffered socket lost FIN asked before socket was
 writable, kept data and shutdown state when reconnected

---
 include/crab/http/connection.hpp | 15 ++++++++++++---
 include/crab/http/connection.hxx | 10 +++-------
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/include/crab/http/connection.hpp b/include/crab/http/connection.hpp
index ce6bf99..591b691 100644
--- a/include/crab/http/connection.hpp
+++ b/include/crab/http/connection.hpp
@@ -24,9 +24,18 @@ public:
 	void close(bool with_event = false);
 	bool is_open() const { return sock.is_open(); }
 
-	bool connect(const Address &address) { return sock.connect(address); }
-	bool connect_tls(const Address &address, const std::string &host) { return sock.connect_tls(address, host); }
-	void accept(TCPAcceptor &acceptor, Address *accepted_addr = nullptr) { sock.accept(acceptor, accepted_addr); }
+	bool connect(const Address &address) {
+		close();  // Data buffered for previous connection must not be sent to the new one
+		return sock.connect(address);
+	}
+	bool connect_tls(const Address &address, const std::string &host) {
+		close();
+		return sock.connect_tls(address, host);
+	}
+	void accept(TCPAcceptor &acceptor, Address *accepted_addr = nullptr) {
+		close();
+		sock.accept(acceptor, accepted_addr);
+	}
 
 	size_t read_some(uint8_t *val, size_t count) override;
 	using IStream::read_some;  // Version for other char types
diff --git a/include/crab/http/connection.hxx b/include/crab/http/connection.hxx
index ca3b7e8..057174a 100644
--- a/include/crab/http/connection.hxx
+++ b/include/crab/http/connection.hxx
@@ -92,22 +92,18 @@ CRAB_INLINE void BufferedTCPSocket::write_shutdown() {
 	if (!sock.is_open() || write_shutdown_asked)
 		return;
 	write_shutdown_asked = true;
-	if (data_to_write.empty()) {
-		sock.write_shutdown();
-		shutdown_timer.once(WM_SHUTDOWN_TIMEOUT_SEC);
-	}
+	write();  // FIN is sent either here or later, after socket becomes writable and all data is flushed
 }
 
 CRAB_INLINE void BufferedTCPSocket::write() {
-	bool was_empty = data_to_write.empty();
 	while (!data_to_write.empty()) {
 		total_data_to_write -= data_to_write.front().write_to(sock);
 		if (!data_to_write.front().empty())
 			break;
 		data_to_write.pop_front();
 	}
-	if (write_shutdown_asked && data_to_write.empty() && !was_empty) {
-		sock.write_shutdown();
+	if (write_shutdown_asked && data_to_write.empty() && sock.can_write() && !shutdown_timer.is_set()) {
+		sock.write_shutdown();  // Does nothing if !can_write(), for example, before connection is established
 		shutdown_timer.once(WM_SHUTDOWN_TIMEOUT_SEC);
 	}
 }
-- 
2.43.0


From d4b5149348618cc180e85500085c05ec3f6fea53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:11 +0000
Subject: [PATCH 16/37] fix: pipelined request or web message was not processed
 until next socket event after response was finished

---
 include/crab/http/connection.hpp |  2 ++
 include/crab/http/connection.hxx | 17 ++++++++++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/crab/http/connection.hpp b/include/crab/http/connection.hpp
index 591b691..6d9cb88 100644
--- a/include/crab/http/connection.hpp
+++ b/include/crab/http/connection.hpp
@@ -228,10 +228,12 @@ protected:
 	void sock_handler();
 	void on_wm_ping_timer();
 	bool advance_state();
+	void resume_reading();
 
 	Handler rwd_handler;
 
 	BufferedTCPSocket sock;
+	Timer resume_timer;  // Next request or message is already here, no socket event will come for it
 
 	State state                   = REQUEST_HEADER;
 	bool writing_web_message_body = false;  // Web Sockets are sockets, you can write in the middle of reading
diff --git a/include/crab/http/connection.hxx b/include/crab/http/connection.hxx
index 057174a..8ab8719 100644
--- a/include/crab/http/connection.hxx
+++ b/include/crab/http/connection.hxx
@@ -422,7 +422,8 @@ CRAB_INLINE ServerConnection::ServerConnection(Handler &&rwd_handler)
     : read_buffer(8192)
     , wm_ping_timer([&]() { on_wm_ping_timer(); })
     , rwd_handler(std::move(rwd_handler))
-    , sock([this]() { sock_handler(); }) {}
+    , sock([this]() { sock_handler(); })
+    , resume_timer([this]() { this->rwd_handler(); }) {}
 
 CRAB_INLINE void ServerConnection::accept(TCPAcceptor &acceptor) {
 	close();
@@ -434,6 +435,7 @@ CRAB_INLINE void ServerConnection::accept(TCPAcceptor &acceptor) {
 CRAB_INLINE void ServerConnection::close() {
 	read_buffer.clear();
 	wm_ping_timer.cancel();
+	resume_timer.cancel();
 	sock.close();
 	state                    = REQUEST_HEADER;
 	writing_web_message_body = false;
@@ -443,6 +445,7 @@ CRAB_INLINE void ServerConnection::close() {
 CRAB_INLINE bool ServerConnection::read_next(Request &req) {
 	if (state != REQUEST_READY)
 		return false;
+	resume_timer.cancel();
 	req.body   = http_body_parser.body.clear();
 	req.header = std::move(request_parser.req);
 	// We move req, but remember params for response. Hopefully compiler will optimize some assignments
@@ -462,6 +465,7 @@ CRAB_INLINE bool ServerConnection::read_next(Request &req) {
 CRAB_INLINE bool ServerConnection::read_next(WebMessage &message) {
 	if (state != WEB_MESSAGE_READY || writing_web_message_body)
 		return false;  // We can start streaming message at any state, but must not allow reading until finished
+	resume_timer.cancel();
 	message = std::move(*web_message);
 	web_message.reset();
 	wm_header_parser = WebMessageHeaderParser{};
@@ -490,6 +494,7 @@ CRAB_INLINE void ServerConnection::web_socket_upgrade() {
 	wm_body_parser   = WebMessageBodyParser{};
 	state            = WEB_MESSAGE_HEADER;
 	wm_ping_timer.once(WM_PING_TIMEOUT_SEC);  // Always server-side
+	resume_reading();
 }
 
 CRAB_INLINE void ServerConnection::write(Response &&resp) {
@@ -588,6 +593,7 @@ CRAB_INLINE void ServerConnection::write(const uint8_t *val, size_t count, Buffe
 			}
 			request_parser = RequestParser{};
 			state          = REQUEST_HEADER;
+			resume_reading();
 		}
 		return;
 	}
@@ -624,6 +630,7 @@ CRAB_INLINE void ServerConnection::write(std::string &&ss, BufferOptions bo) {
 			}
 			request_parser = RequestParser{};
 			state          = REQUEST_HEADER;
+			resume_reading();
 		}
 		return;
 	}
@@ -645,6 +652,7 @@ CRAB_INLINE void ServerConnection::write_last_chunk(BufferOptions bo) {
 		if (bo == BufferOptions::WRITE)
 			wm_ping_timer.once(WM_PING_TIMEOUT_SEC);
 		writing_web_message_body = false;
+		resume_reading();
 		return;
 	}
 	invariant(state == RESPONSE_BODY, "Connection unexpected write");
@@ -656,6 +664,13 @@ CRAB_INLINE void ServerConnection::write_last_chunk(BufferOptions bo) {
 	}
 	request_parser = RequestParser{};
 	state          = REQUEST_HEADER;
+	resume_reading();
+}
+
+CRAB_INLINE void ServerConnection::resume_reading() {
+	// Client could send next request (or message) long before we finished writing, so it may be in read_buffer or socket already
+	if (state == WEB_MESSAGE_READY || advance_state())
+		resume_timer.once(0);
 }
 
 CRAB_INLINE void ServerConnection::sock_handler() {
-- 
2.43.0


From 2f38cdbdf13fed79f6400fc68cfddaba1f8571fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:11 +0000
Subject: [PATCH 17/37] fix: ErrorAuthorization from request handler stopped
 the server instead of 401 response

---
 include/crab/http/server.hxx | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/crab/http/server.hxx b/include/crab/http/server.hxx
index f557ace..61a2806 100644
--- a/include/crab/http/server.hxx
+++ b/include/crab/http/server.hxx
@@ -164,10 +164,13 @@ CRAB_INLINE void Server::on_client_handle_request(Client *who, Request &&request
 		if (r_handler)
 			r_handler(who, std::move(request));
 	} catch (const ErrorAuthorization &ex) {
-		Response response;
-		response.header.headers.push_back({"WWW-Authenticate", "Basic realm=\"" + ex.realm + "\", charset=\"UTF-8\""});
-		response.header.status = 401;
-		who->write(std::move(response));
+		if (who->get_state() == ServerConnection::RESPONSE_HEADER) {
+			Response response;
+			response.header.headers.push_back({"WWW-Authenticate", "Basic realm=\"" + ex.realm + "\", charset=\"UTF-8\""});
+			response.header.status         = 401;
+			response.header.content_length = 0;
+			who->write(std::move(response));
+		}
 		return;
 	} catch (const std::exception &ex) {
 		if (who->get_state() == ServerConnection::RESPONSE_HEADER) {
-- 
2.43.0


From 9529b6d35586fa1616239cda97776a81f8fafb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:11 +0000
Subject: [PATCH 18/37] fix: body position ignored strings moved into stream

---
 include/crab/http/server.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/crab/http/server.hxx b/include/crab/http/server.hxx
index 61a2806..82dd1ac 100644
--- a/include/crab/http/server.hxx
+++ b/include/crab/http/server.hxx
@@ -46,8 +46,9 @@ CRAB_INLINE void Client::write(const uint8_t *val, size_t count, BufferOptions b
 }
 
 CRAB_INLINE void Client::write(std::string &&ss, BufferOptions buffer_options) {
+	const auto count = ss.size();
 	ServerConnection::write(std::move(ss), buffer_options);
-	body_position += ss.size();
+	body_position += count;
 	if (!is_writing_body()) {
 		rwd_handler = nullptr;
 	}
-- 
2.43.0


From e9b7fb0d5bf5b9d4e32d0cf8076cc5e8159d0caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:11 +0000
Subject: [PATCH 19/37] fix: unfinished web message of closed connection leaked
 into the next one

---
 include/crab/http/connection.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/crab/http/connection.hxx b/include/crab/http/connection.hxx
index 8ab8719..7c8a00f 100644
--- a/include/crab/http/connection.hxx
+++ b/include/crab/http/connection.hxx
@@ -167,6 +167,7 @@ CRAB_INLINE void ClientConnection::close() {
 	read_buffer.clear();
 	dns.cancel();
 	waiting_request.reset();
+	web_message.reset();
 	sock.close();
 	peer_address = Address();
 	protocol.clear();
@@ -436,6 +437,7 @@ CRAB_INLINE void ServerConnection::close() {
 	read_buffer.clear();
 	wm_ping_timer.cancel();
 	resume_timer.cancel();
+	web_message.reset();
 	sock.close();
 	state                    = REQUEST_HEADER;
 	writing_web_message_body = false;
-- 
2.43.0


From e0908f68ace2024f194be9855f4e3f2f1d44bdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:12 +0000
Subject: [PATCH 20/37] fix: exception in handler of web socket CLOSE led to
 second CLOSE, or stopped the server when client disconnected

---
 include/crab/http/server.hxx | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/crab/http/server.hxx b/include/crab/http/server.hxx
index 82dd1ac..dd68316 100644
--- a/include/crab/http/server.hxx
+++ b/include/crab/http/server.hxx
@@ -150,9 +150,8 @@ CRAB_INLINE void Server::on_client_disconnected(std::list<Client>::iterator it)
 		who->d_handler();
 	if (who->rwd_handler)
 		who->rwd_handler();
-	if (who->ws_handler)
-		who->ws_handler(WebMessage{WebMessageOpcode::CLOSE, {},
-		    who->web_message_close_sent ? WebMessage::CLOSE_STATUS_NORMAL : WebMessage::CLOSE_STATUS_DISCONNECT});
+	on_client_handle_message(who, WebMessage{WebMessageOpcode::CLOSE, {},
+	                                  who->web_message_close_sent ? WebMessage::CLOSE_STATUS_NORMAL : WebMessage::CLOSE_STATUS_DISCONNECT});
 	clients.erase(it);
 	accept_all();  // In case we were over limit
 }
@@ -187,11 +186,13 @@ CRAB_INLINE void Server::on_client_handle_request(Client *who, Request &&request
 
 CRAB_INLINE void Server::on_client_handle_message(Client *who, WebMessage &&message) {
 	try {
-		auto opcode = message.opcode;
-		if (who->ws_handler)
+		if (message.opcode == WebMessageOpcode::CLOSE) {
+			auto ws_handler = std::move(who->ws_handler);
+			who->ws_handler = nullptr;  // So we will not send second CLOSE on disconnect, even if handler throws
+			if (ws_handler)
+				ws_handler(std::move(message));
+		} else if (who->ws_handler)
 			who->ws_handler(std::move(message));
-		if (opcode == WebMessageOpcode::CLOSE)
-			who->ws_handler = nullptr;  // So we will not send second CLOSE on disconnect
 	} catch (const std::exception &ex) {
 		std::cout << "HTTP socket request leads to throw/catch, what=" << ex.what() << std::endl;
 		who->write(WebMessage{WebMessageOpcode::CLOSE, ex.what(), WebMessage::CLOSE_STATUS_ERROR});
-- 
2.43.0


From 5278e8900cdabd8109bcc644cd344bfffd6821ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:12 +0000
Subject: [PATCH 21/37] fix: streaming handler was destroyed while running when
 it finished the stream

---
 include/crab/http/server.hpp |  1 +
 include/crab/http/server.hxx | 23 +++++++++++++++++++----
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/include/crab/http/server.hpp b/include/crab/http/server.hpp
index 31a6491..057c824 100644
--- a/include/crab/http/server.hpp
+++ b/include/crab/http/server.hpp
@@ -76,6 +76,7 @@ private:
 	WS_handler ws_handler;
 	Handler d_handler;
 	Handler rwd_handler;
+	void call_rwd_handler();
 
 	uint64_t body_position      = 0;
 	bool web_message_close_sent = false;
diff --git a/include/crab/http/server.hxx b/include/crab/http/server.hxx
index dd68316..3c09a75 100644
--- a/include/crab/http/server.hxx
+++ b/include/crab/http/server.hxx
@@ -66,6 +66,21 @@ CRAB_INLINE void Client::web_socket_upgrade(WS_handler &&cb) {
 	web_message_close_sent = false;
 }
 
+CRAB_INLINE void Client::call_rwd_handler() {
+	// Handler can finish streaming and even start the next one, but must not be destroyed while it runs
+	auto cb     = std::move(rwd_handler);
+	rwd_handler = nullptr;
+	try {
+		cb();
+	} catch (...) {
+		if (!rwd_handler && is_writing_body())
+			rwd_handler = std::move(cb);
+		throw;
+	}
+	if (!rwd_handler && is_writing_body())
+		rwd_handler = std::move(cb);
+}
+
 CRAB_INLINE void Client::postpone_response(Handler &&cb) {
 	invariant(!is_state_websocket(), "After web socket upgrade you can use only web socket functions");
 	d_handler = std::move(cb);
@@ -80,14 +95,14 @@ CRAB_INLINE void Client::start_write_stream(ResponseHeader &response, Handler &&
 	d_handler     = nullptr;
 	rwd_handler   = std::move(cb);
 	body_position = 0;
-	rwd_handler();  // Some data might are ready, so we call handler immediately. TODO - investigate consequences
+	call_rwd_handler();  // Some data might are ready, so we call handler immediately. TODO - investigate consequences
 }
 
 CRAB_INLINE void Client::start_write_stream(WebMessageOpcode opcode, Handler &&scb) {
 	ServerConnection::write(opcode);
 	rwd_handler   = std::move(scb);
 	body_position = 0;
-	rwd_handler();  // Some data might are ready, so we call handler immediately. TODO - investigate consequences
+	call_rwd_handler();  // Some data might are ready, so we call handler immediately. TODO - investigate consequences
 }
 
 CRAB_INLINE Server::Server(const Address &address, const Settings &settings)
@@ -123,7 +138,7 @@ CRAB_INLINE void Server::on_client_handler(std::list<Client>::iterator it) {
 	WebMessage message;
 	Request request;
 	if (who->rwd_handler)
-		who->rwd_handler();
+		who->call_rwd_handler();
 	while (true) {
 		if (who->read_next(message)) {
 			on_client_handle_message(who, std::move(message));
@@ -149,7 +164,7 @@ CRAB_INLINE void Server::on_client_disconnected(std::list<Client>::iterator it)
 	if (who->d_handler)
 		who->d_handler();
 	if (who->rwd_handler)
-		who->rwd_handler();
+		who->call_rwd_handler();
 	on_client_handle_message(who, WebMessage{WebMessageOpcode::CLOSE, {},
 	                                  who->web_message_close_sent ? WebMessage::CLOSE_STATUS_NORMAL : WebMessage::CLOSE_STATUS_DISCONNECT});
 	clients.erase(it);
-- 
2.43.0


From 6687c6ac9a8e352ded085c40d1f4e60ba6004258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:12 +0000
Subject: [PATCH 22/37] fix: web messages and pings after CLOSE were processed

---
 include/crab/http/connection.hpp |  2 ++
 include/crab/http/connection.hxx | 12 ++++++++++++
 2 files changed, 14 insertions(+)

diff --git a/include/crab/http/connection.hpp b/include/crab/http/connection.hpp
index 6d9cb88..fc325de 100644
--- a/include/crab/http/connection.hpp
+++ b/include/crab/http/connection.hpp
@@ -136,6 +136,7 @@ protected:
 	WebMessageHeaderParser wm_header_parser;  // Chunk header
 	WebMessageBodyParser wm_body_parser;      // Chunk body
 	optional<WebMessage> web_message;         // Built from chunks
+	bool web_message_close_received = false;  // Everything after CLOSE is ignored
 	std::string sec_websocket_key;
 
 	void dns_handler(const std::vector<Address> &names);
@@ -218,6 +219,7 @@ protected:
 	WebMessageHeaderParser wm_header_parser;  // Chunk header
 	WebMessageBodyParser wm_body_parser;      // Chunk body
 	optional<WebMessage> web_message;         // Built from chunks
+	bool web_message_close_received = false;  // Everything after CLOSE is ignored
 	Timer wm_ping_timer;
 	// Server-side ping required for some NATs to keep port open
 	// TCP keep-alive is set by most browsers, but surprisingly it is not enough.
diff --git a/include/crab/http/connection.hxx b/include/crab/http/connection.hxx
index 7c8a00f..ffd6b9c 100644
--- a/include/crab/http/connection.hxx
+++ b/include/crab/http/connection.hxx
@@ -168,6 +168,7 @@ CRAB_INLINE void ClientConnection::close() {
 	dns.cancel();
 	waiting_request.reset();
 	web_message.reset();
+	web_message_close_received = false;
 	sock.close();
 	peer_address = Address();
 	protocol.clear();
@@ -348,6 +349,10 @@ CRAB_INLINE bool ClientConnection::advance_state() {
 				state            = WEB_MESSAGE_HEADER;
 				continue;
 			case WEB_MESSAGE_HEADER:
+				if (web_message_close_received) {
+					read_buffer.clear();
+					continue;
+				}
 				wm_header_parser.parse(read_buffer);
 				if (!wm_header_parser.is_good())
 					continue;
@@ -375,6 +380,7 @@ CRAB_INLINE bool ClientConnection::advance_state() {
 				if (wm_header_parser.opcode == static_cast<int>(WebMessageOpcode::CLOSE)) {
 					auto body = wm_body_parser.body.clear();
 					web_message.emplace(WebMessageOpcode::CLOSE);
+					web_message_close_received = true;
 					if (body.size() >= 2) {
 						web_message->close_code = (uint8_cast(body.data())[0] << 8) + uint8_cast(body.data())[1];
 						web_message->body       = body.substr(2);
@@ -438,6 +444,7 @@ CRAB_INLINE void ServerConnection::close() {
 	wm_ping_timer.cancel();
 	resume_timer.cancel();
 	web_message.reset();
+	web_message_close_received = false;
 	sock.close();
 	state                    = REQUEST_HEADER;
 	writing_web_message_body = false;
@@ -724,6 +731,10 @@ CRAB_INLINE bool ServerConnection::advance_state() {
 				state = REQUEST_READY;
 				return true;
 			case WEB_MESSAGE_HEADER:
+				if (web_message_close_received) {
+					read_buffer.clear();
+					continue;
+				}
 				wm_header_parser.parse(read_buffer);
 				if (!wm_header_parser.is_good())
 					continue;
@@ -751,6 +762,7 @@ CRAB_INLINE bool ServerConnection::advance_state() {
 				if (wm_header_parser.opcode == static_cast<int>(WebMessageOpcode::CLOSE)) {
 					auto body = wm_body_parser.body.clear();
 					web_message.emplace(WebMessageOpcode::CLOSE);
+					web_message_close_received = true;
 					if (body.size() >= 2) {
 						web_message->close_code = (uint8_cast(body.data())[0] << 8) + uint8_cast(body.data())[1];
 						web_message->body       = body.substr(2);
-- 
2.43.0


From 8f913f3acb3eac053ceb8f4e046512d485c7cd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:12 +0000
Subject: [PATCH 23/37] fix: data sent by server before request was written was
 taken for response

---
 include/crab/http/connection.hxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/crab/http/connection.hxx b/include/crab/http/connection.hxx
index ffd6b9c..9930ab2 100644
--- a/include/crab/http/connection.hxx
+++ b/include/crab/http/connection.hxx
@@ -414,6 +414,11 @@ CRAB_INLINE bool ClientConnection::advance_state() {
 				}
 				state = WEB_MESSAGE_READY;
 				return true;
+			case WAITING_WRITE_REQUEST:
+				// Must not be taken for response to the next request (usually it is 408 before server closes idle connection)
+				read_buffer.clear();
+				sock.close(true);
+				return false;
 			default:  // waiting write, closing, etc
 				return false;
 			}
-- 
2.43.0


From a05a8610b875f42a2e547677bea9957689814bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:53 +0000
Subject: [PATCH 24/37] fix: web messages and pings were not processed after
 data buffered with BUFFER_ONLY was flushed, or lost with disconnect

---
 include/crab/http/connection.hpp |  5 ++++-
 include/crab/http/connection.hxx | 31 +++++++++++++++++++++++--------
 2 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/include/crab/http/connection.hpp b/include/crab/http/connection.hpp
index fc325de..4f289e9 100644
--- a/include/crab/http/connection.hpp
+++ b/include/crab/http/connection.hpp
@@ -231,11 +231,14 @@ protected:
 	void on_wm_ping_timer();
 	bool advance_state();
 	void resume_reading();
+	void on_resume_timer();
+	void web_message_flushed();
 
 	Handler rwd_handler;
 
 	BufferedTCPSocket sock;
-	Timer resume_timer;  // Next request or message is already here, no socket event will come for it
+	bool reading_suspended = false;  // Data waiting to be sent prevented reading
+	Timer resume_timer;              // Next request or message is already here, no socket event will come for it
 
 	State state                   = REQUEST_HEADER;
 	bool writing_web_message_body = false;  // Web Sockets are sockets, you can write in the middle of reading
diff --git a/include/crab/http/connection.hxx b/include/crab/http/connection.hxx
index 9930ab2..6b24526 100644
--- a/include/crab/http/connection.hxx
+++ b/include/crab/http/connection.hxx
@@ -435,7 +435,7 @@ CRAB_INLINE ServerConnection::ServerConnection(Handler &&rwd_handler)
     , wm_ping_timer([&]() { on_wm_ping_timer(); })
     , rwd_handler(std::move(rwd_handler))
     , sock([this]() { sock_handler(); })
-    , resume_timer([this]() { this->rwd_handler(); }) {}
+    , resume_timer([this]() { on_resume_timer(); }) {}
 
 CRAB_INLINE void ServerConnection::accept(TCPAcceptor &acceptor) {
 	close();
@@ -450,6 +450,7 @@ CRAB_INLINE void ServerConnection::close() {
 	resume_timer.cancel();
 	web_message.reset();
 	web_message_close_received = false;
+	reading_suspended          = false;
 	sock.close();
 	state                    = REQUEST_HEADER;
 	writing_web_message_body = false;
@@ -566,7 +567,7 @@ CRAB_INLINE void ServerConnection::write(WebMessage &&message, BufferOptions bo)
 		return;
 	}
 	if (bo == BufferOptions::WRITE)
-		wm_ping_timer.once(WM_PING_TIMEOUT_SEC);
+		web_message_flushed();
 }
 
 CRAB_INLINE void ServerConnection::write(WebMessageOpcode opcode) {
@@ -593,7 +594,7 @@ CRAB_INLINE void ServerConnection::write(const uint8_t *val, size_t count, Buffe
 		sock.buffer(header.data(), header.size());
 		sock.write(val, count, bo);
 		if (bo == BufferOptions::WRITE)
-			wm_ping_timer.once(WM_PING_TIMEOUT_SEC);
+			web_message_flushed();
 		return;
 	}
 	if (remaining_body_content_length) {
@@ -630,7 +631,7 @@ CRAB_INLINE void ServerConnection::write(std::string &&ss, BufferOptions bo) {
 		sock.buffer(header.data(), header.size());
 		sock.write(std::move(ss), bo);
 		if (bo == BufferOptions::WRITE)
-			wm_ping_timer.once(WM_PING_TIMEOUT_SEC);
+			web_message_flushed();
 		return;
 	}
 	if (remaining_body_content_length) {
@@ -664,7 +665,7 @@ CRAB_INLINE void ServerConnection::write_last_chunk(BufferOptions bo) {
 		WebMessageHeaderSaver header{true, 0, 0, {}};
 		sock.write(header.data(), header.size(), bo);
 		if (bo == BufferOptions::WRITE)
-			wm_ping_timer.once(WM_PING_TIMEOUT_SEC);
+			web_message_flushed();
 		writing_web_message_body = false;
 		resume_reading();
 		return;
@@ -681,6 +682,18 @@ CRAB_INLINE void ServerConnection::write_last_chunk(BufferOptions bo) {
 	resume_reading();
 }
 
+CRAB_INLINE void ServerConnection::web_message_flushed() {
+	wm_ping_timer.once(WM_PING_TIMEOUT_SEC);
+	// Reading could be suspended while data added with BUFFER_ONLY was waiting for this write
+	if (reading_suspended && sock.get_total_buffer_size() == 0)
+		resume_timer.once(0);
+}
+
+CRAB_INLINE void ServerConnection::on_resume_timer() {
+	if (sock.is_open() && !is_writing_body())  // Will resume when finished
+		sock_handler();
+}
+
 CRAB_INLINE void ServerConnection::resume_reading() {
 	// Client could send next request (or message) long before we finished writing, so it may be in read_buffer or socket already
 	if (state == WEB_MESSAGE_READY || advance_state())
@@ -699,7 +712,8 @@ CRAB_INLINE void ServerConnection::sock_handler() {
 		// call read_next, which will call advance_state, and so on
 		return;
 	}
-	if (advance_state())
+	// If request or message already waits for read_next(), it must not be lost due to disconnect noticed while reading more
+	if (state == REQUEST_READY || state == WEB_MESSAGE_READY || advance_state())
 		rwd_handler();
 }
 
@@ -708,12 +722,13 @@ CRAB_INLINE void ServerConnection::on_wm_ping_timer() {
 		sock.write(std::string{});  // Flushing buffer is enough
 	else
 		write(WebMessage{WebMessageOpcode::PING, std::string{}});
-	wm_ping_timer.once(WM_PING_TIMEOUT_SEC);
+	web_message_flushed();
 }
 
 CRAB_INLINE bool ServerConnection::advance_state() {
 	// do not process new request if data waiting to be sent
-	if (sock.get_total_buffer_size() != 0)
+	reading_suspended = sock.get_total_buffer_size() != 0;
+	if (reading_suspended)
 		return false;
 	try {
 		while (true) {
-- 
2.43.0


From dfae48f7887382cd15d1fb3218d6a0a338dac6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:22 +0000
Subject: [PATCH 25/37] fix: simple request reused connection after either side
 asked to close it, so next request was lost

---
 include/crab/http/client_request.hpp | 3 ++-
 include/crab/http/client_request.hxx | 9 +++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/crab/http/client_request.hpp b/include/crab/http/client_request.hpp
index f55298b..847f86b 100644
--- a/include/crab/http/client_request.hpp
+++ b/include/crab/http/client_request.hpp
@@ -41,7 +41,8 @@ private:
 
 	ClientConnection connection;
 	Timer timeout_timer;  // connection is not closed immediately, anticipating more requests
-	bool requesting = false;
+	bool requesting      = false;
+	bool keep_connection = false;  // Neither side asked to close it
 };
 
 // WebBrowser-like, creates and maintains (for small period) predefined # of connections to each host
diff --git a/include/crab/http/client_request.hxx b/include/crab/http/client_request.hxx
index 094235f..8741a40 100644
--- a/include/crab/http/client_request.hxx
+++ b/include/crab/http/client_request.hxx
@@ -28,8 +28,10 @@ CRAB_INLINE void ClientRequestSimple::send(Request &&request, uint16_t port, con
 	timeout_timer.cancel();
 	if (!connection.is_open())
 		connection.connect(request.header.host, port, protocol);
+	const bool keep_alive = request.header.keep_alive;
 	connection.write(std::move(request));
-	requesting = true;
+	keep_connection = keep_alive;
+	requesting      = true;
 }
 
 CRAB_INLINE void ClientRequestSimple::send(const std::string &uri_str, Request &&request) {
@@ -81,7 +83,10 @@ CRAB_INLINE void ClientRequestSimple::on_connection() {
 	if (!requesting)
 		return;  // Should not be possible
 	requesting = false;
-	timeout_timer.once(keep_connection_timeout_sec);
+	if (keep_connection && response.header.keep_alive)
+		timeout_timer.once(keep_connection_timeout_sec);
+	else
+		connection.close();  // Next request sent there would be lost
 	r_handler(std::move(response));
 }
 
-- 
2.43.0


From b400c4afd4bfce214516a398e80e4c2e00984f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:13 +0000
Subject: [PATCH 26/37] fix: watcher destroyed by its handler was used by
 thread still inside call()

---
 include/crab/network.hxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/crab/network.hxx b/include/crab/network.hxx
index 8047475..403cf2b 100644
--- a/include/crab/network.hxx
+++ b/include/crab/network.hxx
@@ -278,8 +278,9 @@ CRAB_INLINE Watcher::Watcher(Handler &&a_handler) : loop(RunLoop::current()), a_
 CRAB_INLINE Watcher::~Watcher() { cancel(); }
 
 CRAB_INLINE void Watcher::call() {
-	loop->links.call_watcher(this);
-	loop->wakeup();
+	auto l = loop;  // Handler can run and destroy watcher before call_watcher returns
+	l->links.call_watcher(this);
+	l->wakeup();
 }
 
 CRAB_INLINE void Watcher::cancel() {
-- 
2.43.0


From 55b838fd8eabb3027d71b71124668e91c899860b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:13 +0000
Subject: [PATCH 27/37] fix: DNS worker used resolver which was destroyed by
 its handler, and changed names while handler used them

---
 include/crab/network.hxx | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/crab/network.hxx b/include/crab/network.hxx
index 403cf2b..00bd138 100644
--- a/include/crab/network.hxx
+++ b/include/crab/network.hxx
@@ -364,8 +364,13 @@ CRAB_INLINE DNSResolver::DNSResolver(DNS_handler &&handler)
     : ab(std::bind(&DNSResolver::on_handler, this)), dns_handler(std::move(handler)) {}
 
 CRAB_INLINE void DNSResolver::on_handler() {
-	resolving = false;
-	dns_handler(names);
+	{
+		// Worker calls us under this lock and uses us until it releases it, so handler must not destroy us before
+		std::unique_lock<std::mutex> lock(details::DNSWorker::get_instance().dns_mutex);
+	}
+	resolving   = false;
+	auto result = std::move(names);  // Handler can start next resolve, then names will be changed by worker
+	dns_handler(result);
 }
 
 CRAB_INLINE void DNSResolver::resolve(const std::string &host_name, uint16_t port, bool ipv4, bool ipv6) {
-- 
2.43.0


From 019366698e4f5d6b156a4d9c4b82cabee03a1289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:49 +0000
Subject: [PATCH 28/37] fix: ClientConnection::connect() with references to its
 own host and protocol

---
 include/crab/http/connection.hxx | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/crab/http/connection.hxx b/include/crab/http/connection.hxx
index 6b24526..a8aea5f 100644
--- a/include/crab/http/connection.hxx
+++ b/include/crab/http/connection.hxx
@@ -139,13 +139,15 @@ CRAB_INLINE ClientConnection::ClientConnection(Handler &&rwd_handler)
     , state(RESOLVING_HOST) {}  // Never compared in closed state
 
 CRAB_INLINE bool ClientConnection::connect(const std::string &h, uint16_t p, const std::string &pr) {
+	auto new_host     = h;  // Can be references to our fields (from get_host(), get_protocol()), which close() clears
+	auto new_protocol = pr;
 	close();
-	if (pr != string_view{"http"} && pr != string_view{"https"})
+	if (new_protocol != string_view{"http"} && new_protocol != string_view{"https"})
 		throw std::runtime_error{"ClientConnection unsupported protocol"};
-	dns.resolve(h, p, true, false);
-	host     = h;
+	dns.resolve(new_host, p, true, false);
+	host     = std::move(new_host);
 	port     = p;
-	protocol = pr;
+	protocol = std::move(new_protocol);
 	state    = RESOLVING_HOST;
 	return true;
 }
-- 
2.43.0


From b13e37232ca729da454b0234025de445b686f835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:49 +0000
Subject: [PATCH 29/37] fix: integer_cast() from floating point accepted NaN
 and 2^digits

---
 include/crab/integer_cast.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/crab/integer_cast.hpp b/include/crab/integer_cast.hpp
index dffc7ca..19c1975 100644
--- a/include/crab/integer_cast.hpp
+++ b/include/crab/integer_cast.hpp
@@ -4,6 +4,7 @@
 #pragma once
 
 #include <cctype>
+#include <cmath>
 #include <cstdint>
 #include <cstring>
 #include <limits>
@@ -184,7 +185,8 @@ inline T integer_cast_is_integral(const char *arg, std::false_type, std::false_t
 
 template<typename T, typename S>  // source floating point
 inline T integer_cast_is_integral(const S &arg, std::false_type, std::true_type) {
-	if (arg > std::numeric_limits<T>::max())
+	// When S has less digits than T, max() is rounded up to 2^digits, which does not fit into T. NaN does not fit either
+	if (!(arg <= std::numeric_limits<T>::max()) || arg >= std::ldexp(S{1}, std::numeric_limits<T>::digits))
 		throw_out_of_range<T>(arg);
 	if (arg < std::numeric_limits<T>::min())
 		throw_out_of_range<T>(arg);
-- 
2.43.0


From f0300e34a656b5bea7a3496922ca722a34b67d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:49 +0000
Subject: [PATCH 30/37] fix: Address::parse(ip_port) threw on bad port and
 could not parse IPv6 addresses

---
 include/crab/network.hxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/crab/network.hxx b/include/crab/network.hxx
index 00bd138..3827c7e 100644
--- a/include/crab/network.hxx
+++ b/include/crab/network.hxx
@@ -41,11 +41,11 @@ CRAB_INLINE Address::Address(const std::string &ip_port) {
 }
 
 CRAB_INLINE bool Address::parse(Address &address, const std::string &ip_port) {
-	size_t pos = ip_port.find(':');
+	size_t pos = ip_port.rfind(':');  // IPv6 address itself contains ':'
 	if (pos == std::string::npos)
 		return false;
-	auto port = integer_cast<uint16_t>(ip_port.substr(pos + 1));
-	return parse(address, ip_port.substr(0, pos), port);
+	auto port = details::integer_parse_impl<uint16_t>(ip_port.data() + pos + 1, ip_port.data() + ip_port.size());
+	return !port.second && parse(address, ip_port.substr(0, pos), port.first);
 }
 
 CRAB_INLINE std::ostream &operator<<(std::ostream &os, const Address &msg) { return os << msg.get_address() << ":" << msg.get_port(); }
-- 
2.43.0


From 54766b023c993a3a211a1d54f7bae20e2d423f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:49 +0000
Subject: [PATCH 31/37] fix: Address::parse() accepted text with zero character
 after address

---
 include/crab/network_posix_win.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/crab/network_posix_win.hxx b/include/crab/network_posix_win.hxx
index 6b6056b..b5db7ca 100644
--- a/include/crab/network_posix_win.hxx
+++ b/include/crab/network_posix_win.hxx
@@ -11,6 +11,8 @@
 namespace crab {
 
 CRAB_INLINE bool Address::parse(Address &address, const std::string &ip, uint16_t port) {
+	if (ip.find('\0') != std::string::npos)
+		return false;  // inet_pton would see only part of it
 	Address tmp;
 	auto ap6 = reinterpret_cast<sockaddr_in6 *>(tmp.impl_get_sockaddr());
 	if (inet_pton(AF_INET6, ip.c_str(), &ap6->sin6_addr) == 1) {
-- 
2.43.0


From fd0037c11ded16083b87e95ea69ec565514397e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:49 +0000
Subject: [PATCH 32/37] fix: TCPSocket::read_some() of zero bytes was taken for
 remote close

---
 include/crab/network_posix.hxx | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/crab/network_posix.hxx b/include/crab/network_posix.hxx
index b24c8bb..fd83e7f 100644
--- a/include/crab/network_posix.hxx
+++ b/include/crab/network_posix.hxx
@@ -493,11 +493,10 @@ CRAB_INLINE void TCPSocket::accept(TCPAcceptor &acceptor, Address *accepted_addr
 }
 
 CRAB_INLINE size_t TCPSocket::read_some(uint8_t *data, size_t count) {
-	if (!fd.is_valid() || !rwd_handler.can_read)
+	if (!fd.is_valid() || !rwd_handler.can_read || count == 0)  // recv of 0 bytes looks like remote close
 		return 0;
 	RunLoop::current()->stats.RECV_count += 1;
 	RunLoop::current()->stats.push_record("recv", fd.get_value(), int(count));
-	// TODO - decide what happens when count is 0
 	ssize_t result = ::recv(fd.get_value(), data, count, details::CRAB_MSG_NOSIGNAL);
 	RunLoop::current()->stats.push_record("R(recv)", fd.get_value(), int(result));
 	if (result == 0) {  // remote closed
@@ -520,7 +519,7 @@ CRAB_INLINE size_t TCPSocket::read_some(uint8_t *data, size_t count) {
 }
 
 CRAB_INLINE size_t TCPSocket::read_some(uint8_t *val, size_t count, uint8_t *val2, size_t count2) {
-	if (!fd.is_valid() || !rwd_handler.can_read)
+	if (!fd.is_valid() || !rwd_handler.can_read || (count == 0 && count2 == 0))  // recvmsg of 0 bytes looks like remote close
 		return 0;
 	RunLoop::current()->stats.RECV_count += 1;
 	RunLoop::current()->stats.push_record("recv", fd.get_value(), int(count));
@@ -536,7 +535,6 @@ CRAB_INLINE size_t TCPSocket::read_some(uint8_t *val, size_t count, uint8_t *val
 		iovec[iovec_count].iov_len  = count2;
 		iovec_count += 1;
 	}
-	// TODO - decide what happens when iovec_count is 0
 	struct msghdr msg {};
 	msg.msg_iov    = iovec;
 	msg.msg_iovlen = iovec_count;
-- 
2.43.0


From 98495fb1976b4035da4b52bcfc97b51c8ec04c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:49 +0000
Subject: [PATCH 33/37] fix: Random::double_value() could return 1.0

---
 include/crab/util.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/crab/util.hxx b/include/crab/util.hxx
index 9b45a40..335304f 100644
--- a/include/crab/util.hxx
+++ b/include/crab/util.hxx
@@ -176,7 +176,8 @@ CRAB_INLINE std::string Random::printable_string(size_t size) {
 
 CRAB_INLINE double Random::double_value() {
 	auto hipart = uint64_t(pcg32_random_r()) << 31U;  // leave top bit zero for faster ldexp() on some platforms
-	return ldexp(double(hipart ^ pcg32_random_r()), -63);
+	// Only 53 bits fit into double, more bits would be rounded, up to 1.0
+	return ldexp(double((hipart ^ pcg32_random_r()) >> 10U), -53);
 }
 
 CRAB_INLINE void memzero(void *data, size_t len) {
-- 
2.43.0


From cf011ed2f70e4cf30d736e5845f1242d6bdc1091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:49 +0000
Subject: [PATCH 34/37] fix: undefined shift in rol() by zero

---
 include/crab/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/crab/util.hpp b/include/crab/util.hpp
index eba7d1f..552e344 100644
--- a/include/crab/util.hpp
+++ b/include/crab/util.hpp
@@ -169,7 +169,7 @@ inline bool is_valid_utf8(const std::string &str) { return is_valid_utf8(uint8_c
 template<typename T>
 T rol(T mask, size_t shift) {
 	shift = shift & (sizeof(T) * 8 - 1);
-	return (mask << shift) | (mask >> (sizeof(T) * 8 - shift));
+	return (mask << shift) | (mask >> ((sizeof(T) * 8 - shift) & (sizeof(T) * 8 - 1)));
 }
 
 namespace details {
-- 
2.43.0


From abbdadfc2a0f7373ce5722bc031212d3e556840a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:49 +0000
Subject: [PATCH 35/37] fix: string_view(data, size) for C++14 was one
 character short

---
 include/crab/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/crab/util.hpp b/include/crab/util.hpp
index 552e344..5a0a950 100644
--- a/include/crab/util.hpp
+++ b/include/crab/util.hpp
@@ -82,7 +82,7 @@ class string_view {
 public:
 	string_view() = default;
 	explicit string_view(const char *value) : d(value), s(std::strlen(value)) {}
-	constexpr explicit string_view(const char *value, size_t size) : d(value), s(size - 1) {}
+	constexpr explicit string_view(const char *value, size_t size) : d(value), s(size) {}
 
 	int compare(const char *value, size_t size) const { return (s == size) ? std::memcmp(d, value, s) : s > size ? 1 : -1; }
 	int compare(const std::string &b) const { return compare(b.data(), b.size()); }
-- 
2.43.0


From e6fddb95369dde9cc36dbf9f8c2b558b69be1926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:47 +0000
Subject: [PATCH 36/37] fix: request to https server in build without TLS
 stopped the loop when name was resolved

---
 include/crab/http/connection.hxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/crab/http/connection.hxx b/include/crab/http/connection.hxx
index a8aea5f..61cc1e3 100644
--- a/include/crab/http/connection.hxx
+++ b/include/crab/http/connection.hxx
@@ -144,6 +144,10 @@ CRAB_INLINE bool ClientConnection::connect(const std::string &h, uint16_t p, con
 	close();
 	if (new_protocol != string_view{"http"} && new_protocol != string_view{"https"})
 		throw std::runtime_error{"ClientConnection unsupported protocol"};
+#if !CRAB_TLS
+	if (new_protocol == string_view{"https"})  // Otherwise exception from dns_handler() would stop the loop
+		throw std::runtime_error{"crablib was build without TLS support"};
+#endif
 	dns.resolve(new_host, p, true, false);
 	host     = std::move(new_host);
 	port     = p;
-- 
2.43.0


From 3f08853aa0a7c98872630ea27c4c599ea2cd4a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:56 +0000
Subject: [PATCH 37/37] fix: simple request in progress looked alive forever
 after another one with unsupported protocol

---
 include/crab/http/client_request.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/crab/http/client_request.hxx b/include/crab/http/client_request.hxx
index 8741a40..2454e15 100644
--- a/include/crab/http/client_request.hxx
+++ b/include/crab/http/client_request.hxx
@@ -26,8 +26,10 @@ CRAB_INLINE void ClientRequestSimple::send(Request &&request, uint16_t port, con
 	    (request.header.host != connection.get_host() || port != connection.get_port() || protocol != connection.get_protocol()))
 		connection.close();
 	timeout_timer.cancel();
-	if (!connection.is_open())
+	if (!connection.is_open()) {
+		requesting = false;  // Request in progress is dropped, even if connect() throws
 		connection.connect(request.header.host, port, protocol);
+	}
 	const bool keep_alive = request.header.keep_alive;
 	connection.write(std::move(request));
 	keep_connection = keep_alive;
-- 
2.43.0

