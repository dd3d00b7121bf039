From 382990fb2fb789c2fb279caf0e295e0fa87d50df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:19 +0000
Subject: [PATCH 01/74] fix: reading past the end of a Buffer no longer touches
 memory outside it

---
 src/utils/Buffer.cpp | 45 ++++++++++++++++++++++++++++++++++++++++++++
 src/utils/Buffer.h   |  2 ++
 2 files changed, 47 insertions(+)

diff --git a/src/utils/Buffer.cpp b/src/utils/Buffer.cpp
index 0e3ed2a..b87b364 100644
--- a/src/utils/Buffer.cpp
+++ b/src/utils/Buffer.cpp
@@ -2,6 +2,8 @@
 // Created by flipback on 11/16/19.
 //
 
+#include <algorithm>
+#include <limits>
 #include "Buffer.h"
 
 namespace eipScanner {
@@ -18,6 +20,16 @@ namespace utils {
 	Buffer::Buffer() : _buffer(0), _position{0} {
 	}
 
+	bool Buffer::canRead(size_t count) {
+		if (!isValid() || count > _buffer.size() - _position) {
+			// The buffer stays invalid, even if something is written to it later
+			_position = std::numeric_limits<size_t>::max();
+			return false;
+		}
+
+		return true;
+	}
+
 	Buffer &Buffer::operator<<(uint8_t val) {
 		_buffer.push_back(val);
 		return *this;
@@ -25,6 +37,11 @@ namespace utils {
 	}
 
 	Buffer &Buffer::operator>>(uint8_t &val) {
+		if (!canRead(sizeof(val))) {
+			val = 0;
+			return *this;
+		}
+
 		val = _buffer[_position++];
 		return *this;
 
@@ -37,6 +54,11 @@ namespace utils {
 	}
 
 	Buffer &Buffer::operator>>(int8_t &val) {
+		if (!canRead(sizeof(val))) {
+			val = 0;
+			return *this;
+		}
+
 		val = static_cast<uint8_t>(_buffer[_position++]);
 		return *this;
 	}
@@ -48,6 +70,11 @@ namespace utils {
 	}
 
 	Buffer &Buffer::operator>>(uint16_t &val) {
+		if (!canRead(sizeof(val))) {
+			val = 0;
+			return *this;
+		}
+
 		val = static_cast<uint16_t>(_buffer[_position++]);
 		val += static_cast<uint16_t>(_buffer[_position++] << 8);
 		return *this;
@@ -71,6 +98,11 @@ namespace utils {
 	}
 
 	Buffer &Buffer::operator>>(uint32_t &val) {
+		if (!canRead(sizeof(val))) {
+			val = 0;
+			return *this;
+		}
+
 		val = static_cast<uint32_t>(_buffer[_position++]);
 		val += static_cast<uint32_t>(_buffer[_position++] << 8);
 		val += static_cast<uint32_t>(_buffer[_position++] << 16);
@@ -101,6 +133,11 @@ namespace utils {
 	}
 
 	Buffer &Buffer::operator>>(uint64_t &val) {
+		if (!canRead(sizeof(val))) {
+			val = 0;
+			return *this;
+		}
+
 		val = static_cast<uint64_t>(_buffer[_position++]);
 		val += static_cast<uint64_t>(_buffer[_position++]) << 8;
 		val += static_cast<uint64_t>(_buffer[_position++]) << 16;
@@ -143,6 +180,10 @@ Buffer &Buffer::operator<<(float val) {
 	}
 
 	Buffer &Buffer::operator>>(std::vector<uint8_t> &val) {
+		if (!canRead(val.size())) {
+			return *this;
+		}
+
 		std::copy(_buffer.begin() + _position, _buffer.begin() + _position + val.size(), val.begin());
 		_position += val.size();
 		return *this;
@@ -158,6 +199,10 @@ Buffer &Buffer::operator<<(float val) {
 	}
 
 	Buffer &Buffer::operator>>(std::vector<uint16_t> &val) {
+		if (!canRead(val.size()*sizeof(uint16_t))) {
+			return *this;
+		}
+
 		for (auto& v : val) {
 			v = static_cast<int16_t>(_buffer[_position++]);
 			v += static_cast<int16_t>(_buffer[_position++] << 8);
diff --git a/src/utils/Buffer.h b/src/utils/Buffer.h
index 32c1409..17f925f 100644
--- a/src/utils/Buffer.h
+++ b/src/utils/Buffer.h
@@ -114,6 +114,8 @@ namespace utils {
 		bool isValid() const { return _position <= _buffer.size(); }
 		bool empty() const  { return  _position >= _buffer.size(); }
 	private:
+		bool canRead(size_t count);
+
 		std::vector<uint8_t> _buffer;
 		size_t _position;
 	};
-- 
2.43.0


From af1b3de3a84b050bbcfff521d511a90f67d3fc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:59 +0000
Subject: [PATCH 02/74] fix: EncapsPacket::getLengthFromHeader rejects data
 shorter than the length field

---
 src/eip/EncapsPacket.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/eip/EncapsPacket.cpp b/src/eip/EncapsPacket.cpp
index 64d2ed3..adc65a4 100644
--- a/src/eip/EncapsPacket.cpp
+++ b/src/eip/EncapsPacket.cpp
@@ -99,6 +99,10 @@ namespace eip {
 	}
 
 	size_t EncapsPacket::getLengthFromHeader(const std::vector<uint8_t>& data) {
+		if (data.size() < 4) {
+			throw std::runtime_error("EncapsPacket header is too short to contain the length");
+		}
+
 		std::vector<uint8_t> lengthVector(data.begin() + 2, data.begin() + 4);
 		Buffer buf(lengthVector);
 
-- 
2.43.0


From 38beb81e04b83f46def93454b73b9f8fd721489d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:01 +0000
Subject: [PATCH 03/74] fix: CommonPacket::expand rejects data without an item
 count

---
 src/eip/CommonPacket.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/eip/CommonPacket.cpp b/src/eip/CommonPacket.cpp
index c51a176..3da3208 100644
--- a/src/eip/CommonPacket.cpp
+++ b/src/eip/CommonPacket.cpp
@@ -38,6 +38,10 @@ namespace eip {
 		Buffer buffer(data);
 		cip::CipUint count;
 		buffer >> count;
+		if (!buffer.isValid()) {
+			throw std::runtime_error("Wrong Common Packet format");
+		}
+
 		for (int i = 0; i < count && !buffer.empty(); ++i) {
 			cip::CipUint typeId;
 			cip::CipUint length;
-- 
2.43.0


From 069e67771e9a7f3005e57ae2f49274ed7a2e2bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:02 +0000
Subject: [PATCH 04/74] fix: ForwardOpenResponse::expand rejects truncated
 responses

---
 src/cip/connectionManager/ForwardOpenResponse.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cip/connectionManager/ForwardOpenResponse.cpp b/src/cip/connectionManager/ForwardOpenResponse.cpp
index 622c1d1..7cccbe5 100644
--- a/src/cip/connectionManager/ForwardOpenResponse.cpp
+++ b/src/cip/connectionManager/ForwardOpenResponse.cpp
@@ -2,6 +2,7 @@
 // Created by Aleksey Timin on 11/18/19.
 //
 
+#include <stdexcept>
 #include "ForwardOpenResponse.h"
 #include "utils/Buffer.h"
 
@@ -41,6 +42,10 @@ namespace connectionManager {
 
 		_applicationReplay.resize(_applicationReplaySize*2);
 		buffer >> _applicationReplay;
+
+		if (!buffer.isValid()) {
+			throw std::runtime_error("Wrong Forward Open response format");
+		}
 	}
 
 	CipUdint ForwardOpenResponse::getO2TNetworkConnectionId() const {
-- 
2.43.0


From 2c7fcbe2644e902653d6092dff5690791c38905c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:04 +0000
Subject: [PATCH 05/74] fix: decoding a path keeps components whose id is 0

---
 src/cip/EPath.cpp                             | 19 +++++++------------
 .../yaskawa/mp3300iec/Yaskawa_EPath.cpp       | 19 +++++++------------
 2 files changed, 14 insertions(+), 24 deletions(-)

diff --git a/src/cip/EPath.cpp b/src/cip/EPath.cpp
index 447ef30..164914d 100644
--- a/src/cip/EPath.cpp
+++ b/src/cip/EPath.cpp
@@ -1,6 +1,7 @@
 //
 // Created by Aleksey Timin on 11/16/19.
 //
+#include <algorithm>
 #include <stdexcept>
 #include "utils/Buffer.h"
 #include "EPath.h"
@@ -142,26 +143,32 @@ namespace cip {
 				case EPathSegmentTypes::CLASS_8_BITS:
 					buffer >> byte;
 					_classId = byte;
+					_size = std::max<CipUsint>(_size, 1);
 					break;
 				case EPathSegmentTypes::CLASS_16_BITS:
 					buffer >> ignore >> word;
 					_classId = word;
+					_size = std::max<CipUsint>(_size, 1);
 					break;
 				case EPathSegmentTypes::INSTANCE_8_BITS:
 					buffer >> byte;
 					_objectId = byte;
+					_size = std::max<CipUsint>(_size, 2);
 					break;
 				case EPathSegmentTypes::INSTANCE_16_BITS:
 					buffer >> ignore >> word;
 					_objectId = word;
+					_size = std::max<CipUsint>(_size, 2);
 					break;
 				case EPathSegmentTypes::ATTRIBUTE_8_BITS:
 					buffer >> byte;
 					_attributeId = byte;
+					_size = std::max<CipUsint>(_size, 3);
 					break;
 				case EPathSegmentTypes::ATTRIBUTE_16_BITS:
 					buffer >> ignore >> word;
 					_attributeId = word;
+					_size = std::max<CipUsint>(_size, 3);
 					break;
 				default:
 					throw std::runtime_error("Unknown EPATH segment =" + std::to_string(static_cast<int>(segmentType)));
@@ -171,18 +178,6 @@ namespace cip {
 		if (!buffer.isValid()) {
 			throw std::runtime_error("Wrong EPATH format");
 		}
-
-		if (_classId > 0) {
-			_size++;
-
-			if (_objectId > 0) {
-				_size++;
-
-				if (_attributeId > 0) {
-					_size++;
-				}
-			}
-		}
 	}
 
 	bool EPath::operator==(const EPath &other) const {
diff --git a/src/vendor/yaskawa/mp3300iec/Yaskawa_EPath.cpp b/src/vendor/yaskawa/mp3300iec/Yaskawa_EPath.cpp
index db26946..ea2b80f 100644
--- a/src/vendor/yaskawa/mp3300iec/Yaskawa_EPath.cpp
+++ b/src/vendor/yaskawa/mp3300iec/Yaskawa_EPath.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <stdexcept>
 #include "utils/Buffer.h"
 #include "Yaskawa_EPath.h"
@@ -112,26 +113,32 @@ namespace cip {
 				case EPathSegmentTypes::CLASS_8_BITS:
 					buffer >> byte;
 					_classId = byte;
+					_size = std::max<CipUsint>(_size, 1);
 					break;
 				case EPathSegmentTypes::CLASS_16_BITS:
 					buffer >> ignore >> word;
 					_classId = word;
+					_size = std::max<CipUsint>(_size, 1);
 					break;
 				case EPathSegmentTypes::INSTANCE_8_BITS:
 					buffer >> byte;
 					_objectId = byte;
+					_size = std::max<CipUsint>(_size, 2);
 					break;
 				case EPathSegmentTypes::INSTANCE_16_BITS:
 					buffer >> ignore >> word;
 					_objectId = word;
+					_size = std::max<CipUsint>(_size, 2);
 					break;
 				case EPathSegmentTypes::ATTRIBUTE_8_BITS:
 					buffer >> byte;
 					_attributeId = byte;
+					_size = std::max<CipUsint>(_size, 3);
 					break;
 				case EPathSegmentTypes::ATTRIBUTE_16_BITS:
 					buffer >> ignore >> word;
 					_attributeId = word;
+					_size = std::max<CipUsint>(_size, 3);
 					break;
 				default:
 					throw std::runtime_error("Unknown EPATH segment =" + std::to_string(static_cast<int>(segmentType)));
@@ -141,18 +148,6 @@ namespace cip {
 		if (!buffer.isValid()) {
 			throw std::runtime_error("Wrong EPATH format");
 		}
-
-		if (_classId > 0) {
-			_size++;
-
-			if (_objectId > 0) {
-				_size++;
-
-				if (_attributeId > 0) {
-					_size++;
-				}
-			}
-		}
 	}
 
 	bool Yaskawa_EPath::operator==(const Yaskawa_EPath &other) const {
-- 
2.43.0


From 8bacda91afac1ac99aa2f9550fb88f82c83dfc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:27 +0000
Subject: [PATCH 06/74] fix:
 NetworkConnectionParametersBuilder::setRedundantOwner can be chained like the
 other setters

---
 .../connectionManager/NetworkConnectionParametersBuilder.cpp    | 2 +-
 src/cip/connectionManager/NetworkConnectionParametersBuilder.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cip/connectionManager/NetworkConnectionParametersBuilder.cpp b/src/cip/connectionManager/NetworkConnectionParametersBuilder.cpp
index 219a191..5e34c08 100644
--- a/src/cip/connectionManager/NetworkConnectionParametersBuilder.cpp
+++ b/src/cip/connectionManager/NetworkConnectionParametersBuilder.cpp
@@ -19,7 +19,7 @@ namespace connectionManager {
 
 	}
 
-	NetworkConnectionParametersBuilder NetworkConnectionParametersBuilder::setRedundantOwner(RedundantOwner val) {
+	NetworkConnectionParametersBuilder& NetworkConnectionParametersBuilder::setRedundantOwner(RedundantOwner val) {
 		if (_lfo) {
 			_value |= (val << 31);
 		} else {
diff --git a/src/cip/connectionManager/NetworkConnectionParametersBuilder.h b/src/cip/connectionManager/NetworkConnectionParametersBuilder.h
index ba091fa..203bb1a 100644
--- a/src/cip/connectionManager/NetworkConnectionParametersBuilder.h
+++ b/src/cip/connectionManager/NetworkConnectionParametersBuilder.h
@@ -41,7 +41,7 @@ namespace connectionManager {
 		NetworkConnectionParametersBuilder(CipUdint val = 0, bool lfo = false);
 		virtual ~NetworkConnectionParametersBuilder() = default;
 
-		NetworkConnectionParametersBuilder setRedundantOwner(RedundantOwner val);
+		NetworkConnectionParametersBuilder& setRedundantOwner(RedundantOwner val);
 		NetworkConnectionParametersBuilder& setConnectionType(ConnectionType val);
 		NetworkConnectionParametersBuilder& setPriority(Priority val);
 		NetworkConnectionParametersBuilder& setType(Type val);
-- 
2.43.0


From cfb3cdf897f62b64967257bebe778b7e396ce1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:29 +0000
Subject: [PATCH 07/74] fix: setting a network connection parameter again
 replaces its previous value

---
 .../NetworkConnectionParametersBuilder.cpp               | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cip/connectionManager/NetworkConnectionParametersBuilder.cpp b/src/cip/connectionManager/NetworkConnectionParametersBuilder.cpp
index 5e34c08..e4d0077 100644
--- a/src/cip/connectionManager/NetworkConnectionParametersBuilder.cpp
+++ b/src/cip/connectionManager/NetworkConnectionParametersBuilder.cpp
@@ -21,8 +21,10 @@ namespace connectionManager {
 
 	NetworkConnectionParametersBuilder& NetworkConnectionParametersBuilder::setRedundantOwner(RedundantOwner val) {
 		if (_lfo) {
+			_value &= ~(1u << 31);
 			_value |= (val << 31);
 		} else {
+			_value &= ~(1u << 15);
 			_value |= (val << 15);
 		}
 		return *this;
@@ -30,8 +32,10 @@ namespace connectionManager {
 
 	NetworkConnectionParametersBuilder& NetworkConnectionParametersBuilder::setConnectionType(ConnectionType val) {
 		if (_lfo) {
+			_value &= ~(3u << 29);
 			_value |= (val << 29);
 		} else {
+			_value &= ~(3u << 13);
 			_value |= (val << 13);
 		}
 		return *this;
@@ -39,8 +43,10 @@ namespace connectionManager {
 
 	NetworkConnectionParametersBuilder& NetworkConnectionParametersBuilder::setPriority(Priority val) {
 		if (_lfo) {
+			_value &= ~(3u << 26);
 			_value |= (val << 26);
 		}else {
+			_value &= ~(3u << 10);
 			_value |= (val << 10);
 		}
 		return *this;
@@ -48,8 +54,10 @@ namespace connectionManager {
 
 	NetworkConnectionParametersBuilder& NetworkConnectionParametersBuilder::setType(Type val) {
 		if (_lfo) {
+			_value &= ~(1u << 25);
 			_value |= (val << 25);
 		} else {
+			_value &= ~(1u << 9);
 			_value |= (val << 9);
 		}
 		return *this;
@@ -60,6 +68,7 @@ namespace connectionManager {
 		if (_lfo) {
 			mask = 0x0000FFFF;
 		}
+		_value &= ~mask;
 		_value |= val & mask;
 		return *this;
 	}
-- 
2.43.0


From 3db136010bcd402a4baf01dfd5c51ed0ec8e329f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:10 +0000
Subject: [PATCH 08/74] fix: EndPoint::operator< is a strict weak ordering

---
 src/sockets/EndPoint.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sockets/EndPoint.cpp b/src/sockets/EndPoint.cpp
index b6de7ad..e1b4c8b 100644
--- a/src/sockets/EndPoint.cpp
+++ b/src/sockets/EndPoint.cpp
@@ -67,7 +67,7 @@ namespace sockets {
 
 	bool EndPoint::operator< (const EndPoint& rhs) const {
 		return _host < rhs._host
-			   && _port < rhs._port;
+			   || (_host == rhs._host && _port < rhs._port);
 	}
 
 	std::string EndPoint::toString() const {
-- 
2.43.0


From 44d219b92f2687853570e87c94edaab26214c3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:41 +0000
Subject: [PATCH 09/74] fix: failing sends raise std::system_error

The byte count was compared as an unsigned number, so an error (-1) was taken
for success. The destructor of SessionInfo now swallows such an error.
---
 src/SessionInfo.cpp       | 11 ++++++++---
 src/sockets/TCPSocket.cpp | 13 ++++++++++---
 src/sockets/UDPSocket.cpp |  4 ++--
 3 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/SessionInfo.cpp b/src/SessionInfo.cpp
index cbfb179..be5c204 100644
--- a/src/SessionInfo.cpp
+++ b/src/SessionInfo.cpp
@@ -39,9 +39,14 @@ namespace eipScanner {
 	}
 
 	SessionInfo::~SessionInfo() {
-		EncapsPacket packet = EncapsPacketFactory().createUnRegisterSessionPacket(_sessionHandle);
-		_socket.Send(packet.pack());
-		Logger(LogLevel::INFO) << "Unregistered session " << _sessionHandle;
+		try {
+			EncapsPacket packet = EncapsPacketFactory().createUnRegisterSessionPacket(_sessionHandle);
+			_socket.Send(packet.pack());
+			Logger(LogLevel::INFO) << "Unregistered session " << _sessionHandle;
+		} catch (const std::exception& e) {
+			// The connection may be lost already, a destructor must not throw
+			Logger(LogLevel::WARNING) << "Failed to unregister session " << _sessionHandle << ": " << e.what();
+		}
 	}
 
 	EncapsPacket SessionInfo::sendAndReceive(const EncapsPacket& packet) const {
diff --git a/src/sockets/TCPSocket.cpp b/src/sockets/TCPSocket.cpp
index bbceaac..3b53429 100644
--- a/src/sockets/TCPSocket.cpp
+++ b/src/sockets/TCPSocket.cpp
@@ -132,9 +132,16 @@ namespace eipScanner {
 			// Do not generate SIGPIPE when calling send() on closed socket
 			flags |= MSG_NOSIGNAL;
 #endif
-			int count = send(_sockedFd, (char*)data.data(), data.size(), flags);
-			if (count < data.size()) {
-				throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
+			size_t count = 0;
+			while (count < data.size()) {
+				auto len = send(_sockedFd, (char*)(data.data() + count), data.size() - count, flags);
+				if (len < 0) {
+					if (BaseSocket::getLastError() == EIPSCANNER_SOCKET_ERROR(EINTR)) {
+						continue;
+					}
+					throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
+				}
+				count += len;
 			}
 		}
 
diff --git a/src/sockets/UDPSocket.cpp b/src/sockets/UDPSocket.cpp
index 04f1ddb..7930eb6 100644
--- a/src/sockets/UDPSocket.cpp
+++ b/src/sockets/UDPSocket.cpp
@@ -59,9 +59,9 @@ namespace sockets {
 		flags |= MSG_NOSIGNAL;
 #endif
 		auto addr = _remoteEndPoint.getAddr();
-		int count = sendto(_sockedFd, (char*)data.data(), data.size(), flags,
+		auto count = sendto(_sockedFd, (char*)data.data(), data.size(), flags,
 				(struct sockaddr *)&addr, sizeof(addr));
-		if (count < data.size()) {
+		if (count < 0 || static_cast<size_t>(count) < data.size()) {
 			throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
 		}
 	}
-- 
2.43.0


From 8a1fd34554bd0bcceed830b2f9adb3f86385eee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:44 +0000
Subject: [PATCH 10/74] fix: TCPSocket::Receive does not return bytes that
 never arrived

---
 src/sockets/TCPSocket.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sockets/TCPSocket.cpp b/src/sockets/TCPSocket.cpp
index 3b53429..192f814 100644
--- a/src/sockets/TCPSocket.cpp
+++ b/src/sockets/TCPSocket.cpp
@@ -170,6 +170,7 @@ namespace eipScanner {
 			if (size != count) {
 				Logger(LogLevel::WARNING) << "Received from " << _remoteEndPoint.toString()
 										  << " " << count << " of " << size;
+				recvBuffer.resize(count);
 			}
 
 			return recvBuffer;
-- 
2.43.0


From b578c0a59988dec96a7d3877452eb97f0d21efca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:33 +0000
Subject: [PATCH 11/74] fix: malformed ListIdentity responses do not abort or
 pollute the discovery

---
 src/DiscoveryManager.cpp | 88 ++++++++++++++++++++++++++--------------
 1 file changed, 58 insertions(+), 30 deletions(-)

diff --git a/src/DiscoveryManager.cpp b/src/DiscoveryManager.cpp
index f8a118a..d55932d 100644
--- a/src/DiscoveryManager.cpp
+++ b/src/DiscoveryManager.cpp
@@ -19,6 +19,7 @@ namespace eipScanner {
 	using eip::EncapsStatusCodes;
 	using eip::EncapsCommands;
 	using eip::CommonPacket;
+	using eip::CommonPacketItemIds;
 
 	using sockets::EndPoint;
 	using sockets::UDPSocket;
@@ -34,6 +35,57 @@ namespace eipScanner {
 
 	DiscoveryManager::~DiscoveryManager() = default;
 
+	static IdentityItem::Vec parseResponse(const std::vector<uint8_t>& data) {
+		IdentityItem::Vec devices;
+
+		if (data.size() < EncapsPacket::HEADER_SIZE) {
+			throw std::runtime_error("Response is shorter than the encapsulation header");
+		}
+
+		CommonPacket commonPacket;
+		commonPacket.expand(std::vector<uint8_t>(data.begin()+EncapsPacket::HEADER_SIZE, data.end()));
+
+		for (size_t i=0; i < commonPacket.getItems().size(); ++i) {
+			const auto& item = commonPacket.getItems()[i];
+			if (item.getTypeId() != CommonPacketItemIds::LIST_IDENTITY) {
+				continue;
+			}
+
+			Buffer buffer(item.getData());
+			CipUint ignore;
+			sockets::EndPoint socketAddr("", 0);
+
+			buffer >> ignore >> socketAddr;
+
+			CipUint vendorId, deviceType, productCode;
+			CipRevision revision;
+			CipWord status;
+			CipUdint serialNumber;
+			CipShortString productName;
+
+			buffer >> vendorId >> deviceType >> productCode
+				   >> revision >> status
+				   >> serialNumber >> productName;
+
+			if (!buffer.isValid()) {
+				throw std::runtime_error("Identity item is too short");
+			}
+
+			IdentityObject identityObject(i);
+			identityObject.setVendorId(vendorId);
+			identityObject.setDeviceType(deviceType);
+			identityObject.setProductCode(productCode);
+			identityObject.setRevision(revision);
+			identityObject.setStatus(status);
+			identityObject.setSerialNumber(serialNumber);
+			identityObject.setProductName(productName.toStdString());
+
+			devices.push_back(IdentityItem{.identityObject=identityObject, .socketAddress=socketAddr});
+		}
+
+		return devices;
+	}
+
 	IdentityItem::Vec DiscoveryManager::discover() const {
 		eipScanner::IdentityItem::Vec devices;
 
@@ -45,36 +97,12 @@ namespace eipScanner {
 				const size_t EIP_MAX_PACKET_SIZE = 504;
 				auto data = socket->Receive(EIP_MAX_PACKET_SIZE);
 
-				CommonPacket commonPacket;
-				commonPacket.expand(std::vector<uint8_t>(data.begin()+EncapsPacket::HEADER_SIZE, data.end()));
-
-				for (int i=0; i < commonPacket.getItems().size(); ++i) {
-					Buffer buffer(commonPacket.getItems()[i].getData());
-					CipUint ignore;
-					sockets::EndPoint socketAddr("", 0);
-
-					buffer >> ignore >> socketAddr;
-
-					CipUint vendorId, deviceType, productCode;
-					CipRevision revision;
-					CipWord status;
-					CipUdint serialNumber;
-					CipShortString productName;
-
-					buffer >> vendorId >> deviceType >> productCode
-						   >> revision >> status
-						   >> serialNumber >> productName;
-
-					IdentityObject identityObject(i);
-					identityObject.setVendorId(vendorId);
-					identityObject.setDeviceType(deviceType);
-					identityObject.setProductCode(productCode);
-					identityObject.setRevision(revision);
-					identityObject.setStatus(status);
-					identityObject.setSerialNumber(serialNumber);
-					identityObject.setProductName(productName.toStdString());
-
-					devices.push_back(IdentityItem{.identityObject=identityObject, .socketAddress=socketAddr});
+				try {
+					auto items = parseResponse(data);
+					devices.insert(devices.end(), items.begin(), items.end());
+				} catch (std::runtime_error& er) {
+					// A malformed answer must not hide the other devices
+					Logger(LogLevel::WARNING) << "Ignored malformed ListIdentity response: " << er.what();
 				}
 			}
 		} catch (std::system_error& er) {
-- 
2.43.0


From 6b8fa0417ea062e8516bc6568eaa33d35ea0c192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:35 +0000
Subject: [PATCH 12/74] fix: UDPSocket returns exactly the received bytes

---
 src/sockets/UDPSocket.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sockets/UDPSocket.cpp b/src/sockets/UDPSocket.cpp
index 7930eb6..69e5460 100644
--- a/src/sockets/UDPSocket.cpp
+++ b/src/sockets/UDPSocket.cpp
@@ -75,6 +75,7 @@ namespace sockets {
 			throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
 		}
 
+		recvBuffer.resize(len);
 		return recvBuffer;
 	}
 
@@ -89,6 +90,7 @@ namespace sockets {
 		}
 
 		endPoint = EndPoint(addr);
+		recvBuffer.resize(len);
 		return recvBuffer;
 	}
 }
-- 
2.43.0


From 95315d03a2f74a9add845616ecd7e58a2ff561c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:38 +0000
Subject: [PATCH 13/74] fix: waiting on an empty set of sockets is harmless

---
 src/sockets/BaseSocket.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sockets/BaseSocket.cpp b/src/sockets/BaseSocket.cpp
index efb71db..35d1113 100644
--- a/src/sockets/BaseSocket.cpp
+++ b/src/sockets/BaseSocket.cpp
@@ -118,6 +118,10 @@ namespace sockets {
 	}
 
 	void BaseSocket::select(std::vector<BaseSocket::SPtr> sockets, std::chrono::milliseconds timeout) {
+		if (sockets.empty()) {
+			return;
+		}
+
 		BaseSocket::SPtr socketWithMaxFd = *std::max_element(sockets.begin(), sockets.end(), [](auto sock1, auto sock2) {
 			return sock1->getSocketFd() < sock2->getSocketFd();
 		});
-- 
2.43.0


From 03cf737e53ca9445f7edb3eeee9f6cbb5fa90759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:41 +0000
Subject: [PATCH 14/74] fix: a signal does not turn a pending TCP connect into
 a timeout

---
 src/sockets/TCPSocket.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sockets/TCPSocket.cpp b/src/sockets/TCPSocket.cpp
index 192f814..3eeb3e8 100644
--- a/src/sockets/TCPSocket.cpp
+++ b/src/sockets/TCPSocket.cpp
@@ -72,7 +72,10 @@ namespace eipScanner {
 							FD_SET(_sockedFd, &myset);
 							res = ::select(_sockedFd + 1, NULL, &myset, NULL, &tv);
 
-							if (res < 0 && BaseSocket::getLastError() != EIPSCANNER_SOCKET_ERROR(EINTR)) {
+							if (res < 0) {
+								if (BaseSocket::getLastError() == EIPSCANNER_SOCKET_ERROR(EINTR)) {
+									continue;
+								}
 								throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
 							} else if (res > 0) {
 								// Socket selected for write
-- 
2.43.0


From 53bd98af30a6f6b3b644de4fac1291a293970a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:32 +0000
Subject: [PATCH 15/74] fix: message routers reject replies that cannot hold an
 answer with std::runtime_error

---
 src/MessageRouter.cpp                               | 13 +++++++++++--
 .../yaskawa/mp3300iec/Yaskawa_MessageRouter.cpp     | 13 +++++++++++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/MessageRouter.cpp b/src/MessageRouter.cpp
index 16f2232..b85b4f8 100644
--- a/src/MessageRouter.cpp
+++ b/src/MessageRouter.cpp
@@ -59,10 +59,15 @@ namespace eipScanner {
 
 		auto receivedPacket = si->sendAndReceive(packetToSend);
 
+		const size_t commandSpecificHeaderSize = 6;
+		if (receivedPacket.getData().size() < commandSpecificHeaderSize) {
+			throw std::runtime_error("Response is too short for explicit messaging");
+		}
+
 		Buffer buffer(receivedPacket.getData());
 		cip::CipUdint interfaceHandle = 0;
 		cip::CipUint timeout = 0;
-		std::vector<uint8_t> receivedData(receivedPacket.getData().size() - 6);
+		std::vector<uint8_t> receivedData(receivedPacket.getData().size() - commandSpecificHeaderSize);
 
 		buffer >> interfaceHandle >> timeout >> receivedData;
 		commonPacket.expand(receivedData);
@@ -70,7 +75,11 @@ namespace eipScanner {
 		MessageRouterResponse response;
 		const CommonPacketItem::Vec &items = commonPacket.getItems();
 
-		response.expand(items.at(1).getData());
+		if (items.size() < 2) {
+			throw std::runtime_error("Response has no data item");
+		}
+
+		response.expand(items[1].getData());
 		if (items.size() > 2) {
 			response.setAdditionalPacketItems(
 					CommonPacketItem::Vec(items.begin() + 2, items.end()));
diff --git a/src/vendor/yaskawa/mp3300iec/Yaskawa_MessageRouter.cpp b/src/vendor/yaskawa/mp3300iec/Yaskawa_MessageRouter.cpp
index f966901..a0cb52b 100644
--- a/src/vendor/yaskawa/mp3300iec/Yaskawa_MessageRouter.cpp
+++ b/src/vendor/yaskawa/mp3300iec/Yaskawa_MessageRouter.cpp
@@ -54,10 +54,15 @@ namespace eipScanner {
 
 		auto receivedPacket = si->sendAndReceive(packetToSend);
 
+		const size_t commandSpecificHeaderSize = 6;
+		if (receivedPacket.getData().size() < commandSpecificHeaderSize) {
+			throw std::runtime_error("Response is too short for explicit messaging");
+		}
+
 		Buffer buffer(receivedPacket.getData());
 		cip::CipUdint interfaceHandle = 0;
 		cip::CipUint timeout = 0;
-		std::vector<uint8_t> receivedData(receivedPacket.getData().size() - 6);
+		std::vector<uint8_t> receivedData(receivedPacket.getData().size() - commandSpecificHeaderSize);
 
 		buffer >> interfaceHandle >> timeout >> receivedData;
 		commonPacket.expand(receivedData);
@@ -65,7 +70,11 @@ namespace eipScanner {
 		MessageRouterResponse response;
 		const CommonPacketItem::Vec &items = commonPacket.getItems();
 
-		response.expand(items.at(1).getData());
+		if (items.size() < 2) {
+			throw std::runtime_error("Response has no data item");
+		}
+
+		response.expand(items[1].getData());
 		if (items.size() > 2) {
 			response.setAdditionalPacketItems(
 					CommonPacketItem::Vec(items.begin() + 2, items.end()));
-- 
2.43.0


From 20856eb61547c46f5bd750686fef1e76c61f3186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:28 +0000
Subject: [PATCH 16/74] fix: IO connections are found by all 32 bits of the T2O
 connection id

---
 src/ConnectionManager.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ConnectionManager.h b/src/ConnectionManager.h
index a317067..ab54392 100644
--- a/src/ConnectionManager.h
+++ b/src/ConnectionManager.h
@@ -75,7 +75,7 @@ namespace eipScanner {
 		bool hasOpenConnections() const;
 	private:
 		MessageRouter::SPtr _messageRouter;
-		std::map<cip::CipUint, IOConnection::SPtr> _connectionMap;
+		std::map<cip::CipUdint, IOConnection::SPtr> _connectionMap;
 		std::map<sockets::EndPoint, std::shared_ptr<sockets::UDPBoundSocket>> _socketMap;
 
 		sockets::UDPBoundSocket::SPtr  findOrCreateSocket(const sockets::EndPoint& endPoint);
-- 
2.43.0


From 390114c77d6522f4de19784cb875c325a2d20b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:33 +0000
Subject: [PATCH 17/74] fix: malformed UDP datagrams do not disturb the IO
 connections

---
 src/ConnectionManager.cpp | 27 +++++++++++++++++++++++----
 src/IOConnection.cpp      |  6 ++++++
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/ConnectionManager.cpp b/src/ConnectionManager.cpp
index a4c76a2..b59ff6a 100644
--- a/src/ConnectionManager.cpp
+++ b/src/ConnectionManager.cpp
@@ -24,6 +24,7 @@ namespace eipScanner {
 	using cip::EPath;
 	using cip::GeneralStatusCodes;
 	using eip::CommonPacket;
+	using eip::CommonPacketItemIds;
 	using sockets::UDPSocket;
 	using sockets::UDPBoundSocket;
 	using sockets::BaseSocket;
@@ -239,17 +240,35 @@ namespace eipScanner {
 			newSocket->setBeginReceiveHandler([this](BaseSocket& sock) {
 				auto recvData = sock.Receive(8192);
 				CommonPacket commonPacket;
-				commonPacket.expand(recvData);
+				try {
+					commonPacket.expand(recvData);
+				} catch (const std::runtime_error& e) {
+					Logger(LogLevel::WARNING) << "Ignored malformed IO data: " << e.what();
+					return;
+				}
+
+				// TODO: Check the sequence of the packages
+				auto& items = commonPacket.getItems();
+				if (items.size() < 2
+					|| (items[0].getTypeId() != CommonPacketItemIds::SEQUENCED_ADDRESS_ITEM
+						&& items[0].getTypeId() != CommonPacketItemIds::CONNECTION_ADDRESS_ITEM)
+					|| items[1].getTypeId() != CommonPacketItemIds::CONNECTED_TRANSPORT_PACKET) {
+					Logger(LogLevel::WARNING) << "Ignored IO data without address or data item";
+					return;
+				}
 
-				// TODO: Check TypeIDs and sequence of the packages
-				Buffer buffer(commonPacket.getItems().at(0).getData());
+				Buffer buffer(items[0].getData());
 				cip::CipUdint connectionId;
 				buffer >> connectionId;
+				if (!buffer.isValid()) {
+					Logger(LogLevel::WARNING) << "Ignored IO data with too short address item";
+					return;
+				}
 				Logger(LogLevel::DEBUG) << "Received data from connection T2O_ID=" << connectionId;
 
 				auto io = _connectionMap.find(connectionId);
 				if (io != _connectionMap.end()) {
-					io->second->notifyReceiveData(commonPacket.getItems().at(1).getData());
+					io->second->notifyReceiveData(items[1].getData());
 				} else {
 					Logger(LogLevel::ERROR) << "Received data from unknown connection T2O_ID=" << connectionId;
 				}
diff --git a/src/IOConnection.cpp b/src/IOConnection.cpp
index 5571496..bc9a937 100644
--- a/src/IOConnection.cpp
+++ b/src/IOConnection.cpp
@@ -79,6 +79,12 @@ namespace eipScanner {
 			buffer >> sequenceValueCount;
 		}
 
+		if (!buffer.isValid()) {
+			Logger(LogLevel::WARNING) << "Connection T2O_ID=" << _t2oNetworkConnectionId
+				<< " received data without complete headers. Ignore this data.";
+			return;
+		}
+
 		std::vector<uint8_t> ioData(data.begin() + buffer.pos(), data.end());
 		if (_t2oFixedSize && ioData.size() != _t2oDataSize) {
 			Logger(LogLevel::WARNING) << "Connection T2O_ID=" << _t2oNetworkConnectionId
-- 
2.43.0


From 7c40e7364a62155f18ada1ae8342d0bb8d348f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:35 +0000
Subject: [PATCH 18/74] fix: received IO data carries the sequence count before
 the real-time header

---
 src/IOConnection.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/IOConnection.cpp b/src/IOConnection.cpp
index bc9a937..4233d44 100644
--- a/src/IOConnection.cpp
+++ b/src/IOConnection.cpp
@@ -70,15 +70,15 @@ namespace eipScanner {
 		cip::CipUdint runtimeHeader = 0;
 		cip::CipUint sequenceValueCount = 0;
 
-		if (_t2oRealTimeFormat) {
-			buffer >> runtimeHeader;
-		}
-
 		if ((_transportTypeTrigger & NetworkConnectionParams::CLASS1) > 0
 			|| (_transportTypeTrigger & NetworkConnectionParams::CLASS3) > 0) {
 			buffer >> sequenceValueCount;
 		}
 
+		if (_t2oRealTimeFormat) {
+			buffer >> runtimeHeader;
+		}
+
 		if (!buffer.isValid()) {
 			Logger(LogLevel::WARNING) << "Connection T2O_ID=" << _t2oNetworkConnectionId
 				<< " received data without complete headers. Ignore this data.";
-- 
2.43.0


From 3741a4609e20c6c625a9e972514e29eac4e47f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:41 +0000
Subject: [PATCH 19/74] fix: connection timeouts of any multiplier and packet
 interval are computed without overflow

---
 src/IOConnection.cpp | 2 +-
 src/IOConnection.h   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/IOConnection.cpp b/src/IOConnection.cpp
index 4233d44..7cd8736 100644
--- a/src/IOConnection.cpp
+++ b/src/IOConnection.cpp
@@ -104,7 +104,7 @@ namespace eipScanner {
 
 		auto periodInMicroS = sinceLastHandle.count() * 1000;
 		_connectionTimeoutCount += periodInMicroS;
-		if (_connectionTimeoutCount > _connectionTimeoutMultiplier * _t2oAPI) {
+		if (_connectionTimeoutCount > static_cast<uint64_t>(_connectionTimeoutMultiplier) * _t2oAPI) {
 			Logger(LogLevel::WARNING) << "Connection SeriaNumber=" << _serialNumber << " is closed by timeout";
 			_closeHandle();
 			return false;
diff --git a/src/IOConnection.h b/src/IOConnection.h
index 9058d89..68217db 100644
--- a/src/IOConnection.h
+++ b/src/IOConnection.h
@@ -83,8 +83,8 @@ namespace eipScanner {
 		cip::CipUdint _o2tTimer;
 		cip::CipUdint _t2o_timer;
 
-		cip::CipUsint _connectionTimeoutMultiplier;
-		cip::CipUdint _connectionTimeoutCount;
+		cip::CipUint _connectionTimeoutMultiplier;
+		uint64_t _connectionTimeoutCount;
 
 		cip::CipUdint _o2tSequenceNumber;
 		cip::CipUdint _t2oSequenceNumber;
-- 
2.43.0


From 4d1aabb6c6107cbd0eb69ac53fc7325960035521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:46 +0000
Subject: [PATCH 20/74] fix: measure connection timeout and production interval
 exactly

The timeout is measured from the last accepted data and not from the handling
before it, and handling periods below 1 ms are no longer lost.
---
 src/IOConnection.cpp | 24 ++++++++----------------
 src/IOConnection.h   |  7 ++-----
 2 files changed, 10 insertions(+), 21 deletions(-)

diff --git a/src/IOConnection.cpp b/src/IOConnection.cpp
index 7cd8736..636c9c1 100644
--- a/src/IOConnection.cpp
+++ b/src/IOConnection.cpp
@@ -26,10 +26,7 @@ namespace eipScanner {
 			, _t2oDataSize{0}
 			, _o2tFixedSize(true)
 			, _t2oFixedSize(true)
-			, _o2tTimer{0}
-			, _t2o_timer{0}
 			, _connectionTimeoutMultiplier{0}
-			, _connectionTimeoutCount{0}
 			, _o2tSequenceNumber{0}
 			, _t2oSequenceNumber{0}
 			, _serialNumber{0}
@@ -44,7 +41,8 @@ namespace eipScanner {
 			, _receiveDataHandle([](auto, auto, auto) {})
 			, _closeHandle([]() {})
 			, _sendDataHandle([](auto) {})
-			, _lastHandleTime(std::chrono::steady_clock::now()) {
+			, _lastSendTime(std::chrono::steady_clock::now())
+			, _lastReceiveTime(_lastSendTime) {
 	}
 
 	IOConnection::~IOConnection() = default;
@@ -91,7 +89,7 @@ namespace eipScanner {
 				<< " has fixed size " << _t2oDataSize << " bytes but " << ioData.size()
 				<< " bytes were received. Ignore this data.";
 		} else {
-			_connectionTimeoutCount = 0;
+			_lastReceiveTime = std::chrono::steady_clock::now();
 			_receiveDataHandle(runtimeHeader, sequenceValueCount,
 							   ioData);
 		}
@@ -99,21 +97,15 @@ namespace eipScanner {
 
 	bool IOConnection::notifyTick() {
 		auto now = std::chrono::steady_clock::now();
-		auto sinceLastHandle =
-			std::chrono::duration_cast<std::chrono::milliseconds>(now - _lastHandleTime);
-
-		auto periodInMicroS = sinceLastHandle.count() * 1000;
-		_connectionTimeoutCount += periodInMicroS;
-		if (_connectionTimeoutCount > static_cast<uint64_t>(_connectionTimeoutMultiplier) * _t2oAPI) {
+		auto connectionTimeout = std::chrono::microseconds(
+				static_cast<uint64_t>(_connectionTimeoutMultiplier) * _t2oAPI);
+		if (now - _lastReceiveTime > connectionTimeout) {
 			Logger(LogLevel::WARNING) << "Connection SeriaNumber=" << _serialNumber << " is closed by timeout";
 			_closeHandle();
 			return false;
 		}
 
-		_lastHandleTime = now;
-
-		_o2tTimer += periodInMicroS;
-		if (_o2tTimer >= _o2tAPI) {
+		if (now - _lastSendTime >= std::chrono::microseconds(_o2tAPI)) {
 			_o2tSequenceNumber++;
 			CommonPacket commonPacket;
 			CommonPacketItemFactory factory;
@@ -130,7 +122,7 @@ namespace eipScanner {
 				buffer << header;
 			}
 
-			_o2tTimer = 0;
+			_lastSendTime = now;
 			_sendDataHandle(_outputData);
 			if (_o2tFixedSize && _outputData.size() != _o2tDataSize)  {
 				Logger(LogLevel::WARNING) << "Connection O2T_ID=" << _o2tNetworkConnectionId
diff --git a/src/IOConnection.h b/src/IOConnection.h
index 68217db..3045434 100644
--- a/src/IOConnection.h
+++ b/src/IOConnection.h
@@ -80,11 +80,7 @@ namespace eipScanner {
 		bool _o2tFixedSize;
 		bool _t2oFixedSize;
 
-		cip::CipUdint _o2tTimer;
-		cip::CipUdint _t2o_timer;
-
 		cip::CipUint _connectionTimeoutMultiplier;
-		uint64_t _connectionTimeoutCount;
 
 		cip::CipUdint _o2tSequenceNumber;
 		cip::CipUdint _t2oSequenceNumber;
@@ -106,7 +102,8 @@ namespace eipScanner {
 		CloseHandle _closeHandle;
 		SendDataHandle _sendDataHandle;
 
-		std::chrono::steady_clock::time_point _lastHandleTime;
+		std::chrono::steady_clock::time_point _lastSendTime;
+		std::chrono::steady_clock::time_point _lastReceiveTime;
 	};
 }
 
-- 
2.43.0


From b6be9cc8013b714029ac45bb3db3a14779a0144a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:49 +0000
Subject: [PATCH 21/74] fix: a failing send of IO data does not break the
 handling of other connections

---
 src/IOConnection.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/IOConnection.cpp b/src/IOConnection.cpp
index 636c9c1..bd61000 100644
--- a/src/IOConnection.cpp
+++ b/src/IOConnection.cpp
@@ -2,6 +2,8 @@
 // Created by Aleksey Timin on 11/18/19.
 //
 
+#include <system_error>
+
 #include "IOConnection.h"
 #include "eip/CommonPacketItemFactory.h"
 #include "eip/CommonPacket.h"
@@ -132,7 +134,12 @@ namespace eipScanner {
 				buffer << _outputData;
 				commonPacket << factory.createConnectedDataItem(buffer.data());
 
-				_socket->Send(commonPacket.pack());
+				try {
+					_socket->Send(commonPacket.pack());
+				} catch (const std::system_error& e) {
+					Logger(LogLevel::WARNING) << "Connection O2T_ID=" << _o2tNetworkConnectionId
+											  << " failed to send data: " << e.what();
+				}
 			}
 		}
 
-- 
2.43.0


From fac3a783e7e42465aa2353774c3358324f5f796a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:53 +0000
Subject: [PATCH 22/74] fix: closing a timed-out connection or getting a
 malformed answer to a close is safe

---
 src/ConnectionManager.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/ConnectionManager.cpp b/src/ConnectionManager.cpp
index b59ff6a..971832b 100644
--- a/src/ConnectionManager.cpp
+++ b/src/ConnectionManager.cpp
@@ -2,7 +2,6 @@
 // Created by Aleksey Timin on 11/18/19.
 //
 #include <algorithm>
-#include <cassert>
 #include <cstdlib>
 #include <random>
 
@@ -185,6 +184,12 @@ namespace eipScanner {
 			Logger(LogLevel::INFO) << "Close connection connection T2O_ID="
 					<< ptr->_t2oNetworkConnectionId;
 
+			// The connection is removed anyway and may be removed by timeout already
+			auto entry = _connectionMap.find(ptr->_t2oNetworkConnectionId);
+			if (entry != _connectionMap.end() && entry->second == ptr) {
+				_connectionMap.erase(entry);
+			}
+
 			auto messageRouterResponse = _messageRouter->sendRequest(si,
 					static_cast<cip::CipUsint>(ConnectionManagerServiceCodes::FORWARD_CLOSE),
 					EPath(6, 1), request.pack());
@@ -196,10 +201,6 @@ namespace eipScanner {
 					<< messageRouterResponse.getGeneralStatusCode()
 					<< ". But the connection is removed from ConnectionManager anyway";
 			}
-
-			auto rc = _connectionMap.erase(ptr->_t2oNetworkConnectionId);
-			(void) rc;
-			assert(rc);
 		} else {
 			Logger(LogLevel::WARNING) << "Attempt to close an already closed connection";
 		}
-- 
2.43.0


From 97d38a1972815d7c097310f8c22588034938dcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:58 +0000
Subject: [PATCH 23/74] fix: reject a Forward Open reply with a truncated O2T
 socket address

---
 src/ConnectionManager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ConnectionManager.cpp b/src/ConnectionManager.cpp
index 971832b..9a1c0a5 100644
--- a/src/ConnectionManager.cpp
+++ b/src/ConnectionManager.cpp
@@ -136,6 +136,9 @@ namespace eipScanner {
 				Buffer sockAddrBuffer(o2tSockAddrInfo->getData());
 				sockets::EndPoint endPoint("",0);
 				sockAddrBuffer >> endPoint;
+				if (!sockAddrBuffer.isValid()) {
+					throw std::runtime_error("Wrong O2T socket address format");
+				}
 
 				if (endPoint.getHost() == "0.0.0.0") {
 					ioConnection->_socket = std::make_unique<UDPSocket>(
-- 
2.43.0


From 0db086400eec070887e24f0a62911d8ba9fc28c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:03 +0000
Subject: [PATCH 24/74] fix: O2T connection ids of multicast connections use
 all 32 bits

---
 src/ConnectionManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ConnectionManager.cpp b/src/ConnectionManager.cpp
index 9a1c0a5..167ac6a 100644
--- a/src/ConnectionManager.cpp
+++ b/src/ConnectionManager.cpp
@@ -58,7 +58,7 @@ namespace eipScanner {
 		NetworkConnectionParametersBuilder t2oNCP(connectionParameters.t2oNetworkConnectionParams, isLarge);
 
 		if (o2tNCP.getConnectionType() == NetworkConnectionParametersBuilder::MULTICAST) {
-			static cip::CipUint idCount = _incarnationId << 16;
+			static cip::CipUdint idCount = _incarnationId << 16;
 			connectionParameters.o2tNetworkConnectionId = ++idCount;
 		}
 
-- 
2.43.0


From 3c1f2b0264d37acd36d00c3e82bbae71a8bc1c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:08 +0000
Subject: [PATCH 25/74] fix: receive IO data of every size a large Forward Open
 can negotiate

---
 src/ConnectionManager.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ConnectionManager.cpp b/src/ConnectionManager.cpp
index 167ac6a..5449f39 100644
--- a/src/ConnectionManager.cpp
+++ b/src/ConnectionManager.cpp
@@ -242,7 +242,8 @@ namespace eipScanner {
 			});
 
 			newSocket->setBeginReceiveHandler([this](BaseSocket& sock) {
-				auto recvData = sock.Receive(8192);
+				const size_t maxUdpPacketSize = 65535;
+				auto recvData = sock.Receive(maxUdpPacketSize);
 				CommonPacket commonPacket;
 				try {
 					commonPacket.expand(recvData);
-- 
2.43.0


From 1fe10ef6fed3455a4762417a00f43b50cd2b8073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:12 +0000
Subject: [PATCH 26/74] fix: a finished or failed file upload ends and calls
 its handler once

---
 .../FileObjectUploadInProgressState.cpp          | 16 ++++++++++++----
 src/fileObject/FileObjectUploadInProgressState.h |  3 +++
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/fileObject/FileObjectUploadInProgressState.cpp b/src/fileObject/FileObjectUploadInProgressState.cpp
index 0054a26..88a5976 100644
--- a/src/fileObject/FileObjectUploadInProgressState.cpp
+++ b/src/fileObject/FileObjectUploadInProgressState.cpp
@@ -3,6 +3,7 @@
 //
 
 #include "FileObjectUploadInProgressState.h"
+#include "FileObjectLoadedState.h"
 #include "utils/Buffer.h"
 
 namespace eipScanner {
@@ -53,7 +54,7 @@ namespace fileObject {
 
 			if (transferNumber != _transferNumber) {
 				logWithStateName(LogLevel::ERROR, "Wrong transfer number");
-				_handler(cip::GeneralStatusCodes::INVALID_PARAMETER, std::vector<uint8_t>());
+				finish(cip::GeneralStatusCodes::INVALID_PARAMETER, {});
 				return false;
 			}
 
@@ -79,10 +80,10 @@ namespace fileObject {
 
 					_fileContent.insert(_fileContent.end(), fileData.begin(), fileData.end());
 					if (_fileContent.size() == _fileSize) {
-						_handler(cip::GeneralStatusCodes::SUCCESS, _fileContent);
+						finish(cip::GeneralStatusCodes::SUCCESS, std::move(_fileContent));
 					} else {
 						logWithStateName(LogLevel::ERROR, "Wrong size of the uploaded file");
-						_handler(cip::GeneralStatusCodes::INVALID_PARAMETER, std::vector<uint8_t>());
+						finish(cip::GeneralStatusCodes::INVALID_PARAMETER, {});
 					}
 					return false;
 				}
@@ -93,10 +94,17 @@ namespace fileObject {
 			_transferNumber++;
 		} else {
 			logGeneralAndAdditionalStatus(response);
-			_handler(response.getGeneralStatusCode(), std::vector<uint8_t>());
+			finish(response.getGeneralStatusCode(), {});
+			return false;
 		}
 
 		return true;
 	}
+
+	void FileObjectUploadInProgressState::finish(cip::GeneralStatusCodes status, std::vector<uint8_t> fileContent) {
+		auto handler = std::move(_handler);
+		setState<FileObjectLoadedState>(); // destroys this state
+		handler(status, fileContent);
+	}
 }
 }
diff --git a/src/fileObject/FileObjectUploadInProgressState.h b/src/fileObject/FileObjectUploadInProgressState.h
index 8a8b25f..5a553e9 100644
--- a/src/fileObject/FileObjectUploadInProgressState.h
+++ b/src/fileObject/FileObjectUploadInProgressState.h
@@ -21,6 +21,9 @@ namespace fileObject {
 		bool transfer(SessionInfoIf::SPtr si) override;
 
 	private:
+		/// Leaves the state and reports the end of the uploading. The object is destroyed after the call
+		void finish(cip::GeneralStatusCodes status, std::vector<uint8_t> fileContent);
+
 		cip::CipUdint _fileSize;
 		cip::CipUsint _transferSize;
 		std::vector<uint8_t>_fileContent;
-- 
2.43.0


From 495d5b0d851846303bbbc0770ae730c09157698d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:16 +0000
Subject: [PATCH 27/74] fix: reject file object replies too short for their
 fields

---
 src/fileObject/FileObjectLoadedState.cpp           |  4 ++++
 src/fileObject/FileObjectState.cpp                 |  3 +++
 src/fileObject/FileObjectUploadInProgressState.cpp | 14 ++++++++++++++
 3 files changed, 21 insertions(+)

diff --git a/src/fileObject/FileObjectLoadedState.cpp b/src/fileObject/FileObjectLoadedState.cpp
index f078943..bb2ab95 100644
--- a/src/fileObject/FileObjectLoadedState.cpp
+++ b/src/fileObject/FileObjectLoadedState.cpp
@@ -31,6 +31,10 @@ namespace fileObject {
 			cip::CipUsint transferSize = 0;
 
 			buffer >> fileSize >> transferSize;
+			if (!buffer.isValid()) {
+				throw std::runtime_error("Response of Initiate Upload is too short");
+			}
+
 			setState<FileObjectUploadInProgressState>(fileSize, transferSize, handler);
 
 		} else {
diff --git a/src/fileObject/FileObjectState.cpp b/src/fileObject/FileObjectState.cpp
index 84d4bc2..e281e22 100644
--- a/src/fileObject/FileObjectState.cpp
+++ b/src/fileObject/FileObjectState.cpp
@@ -63,6 +63,9 @@ namespace fileObject {
 			Buffer buffer(response.getData());
 			cip::CipUsint stateCode;
 			buffer >> stateCode;
+			if (!buffer.isValid()) {
+				throw std::runtime_error("State of File Object is too short");
+			}
 
 			switch (static_cast<FileObjectStateCodes>(stateCode)) {
 				case FileObjectStateCodes::NONEXISTENT:
diff --git a/src/fileObject/FileObjectUploadInProgressState.cpp b/src/fileObject/FileObjectUploadInProgressState.cpp
index 88a5976..f94f44e 100644
--- a/src/fileObject/FileObjectUploadInProgressState.cpp
+++ b/src/fileObject/FileObjectUploadInProgressState.cpp
@@ -48,6 +48,10 @@ namespace fileObject {
 
 
 			buffer >> transferNumber >> reinterpret_cast<cip::CipUsint&>(transferPacketType);
+			if (!buffer.isValid()) {
+				throw std::runtime_error("Transfer packet is too short");
+			}
+
 			logWithStateName(LogLevel::DEBUG,
 					"Receive transfer packet type=" + std::to_string(
 							static_cast<cip::CipUsint>(transferPacketType)));
@@ -62,6 +66,9 @@ namespace fileObject {
 				case TransferPacketTypeCodes::FIRST: {
 					std::vector<uint8_t> fileData(_transferSize);
 					buffer >> fileData;
+					if (!buffer.isValid()) {
+						throw std::runtime_error("Transfer packet is too short");
+					}
 
 					_fileContent.insert(_fileContent.end(), fileData.begin(), fileData.end());
 					break;
@@ -69,12 +76,19 @@ namespace fileObject {
 				case TransferPacketTypeCodes::MIDDLE: {
 					std::vector<uint8_t> fileData(_transferSize);
 					buffer >> fileData;
+					if (!buffer.isValid()) {
+						throw std::runtime_error("Transfer packet is too short");
+					}
 
 					_fileContent.insert(_fileContent.end(), fileData.begin(), fileData.end());
 					break;
 				}
 				case TransferPacketTypeCodes::LAST:
 				case TransferPacketTypeCodes::FIRST_AND_LAST: {
+					if (response.getData().size() < 4) {
+						throw std::runtime_error("Transfer packet is too short");
+					}
+
 					std::vector<uint8_t> fileData(response.getData().size() - 4);	//TODO: Check CRC
 					buffer >> fileData;
 
-- 
2.43.0


From a9d83f4a3ca5ca1e30e6a52a19826da0eae849c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:07 +0000
Subject: [PATCH 28/74] fix: reject an identity reply that ends before the
 product name

---
 src/IdentityObject.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/IdentityObject.cpp b/src/IdentityObject.cpp
index 0e771c9..5e11fea 100644
--- a/src/IdentityObject.cpp
+++ b/src/IdentityObject.cpp
@@ -48,7 +48,7 @@ namespace eipScanner {
 				>> _productName;
 
 			if (!buffer.isValid()) {
-				std::runtime_error("Not enough data in the response");
+				throw std::runtime_error("Not enough data in the response");
 			}
 
 		} else {
-- 
2.43.0


From 63cf553448a68d16a46e83403175c8608e0e8655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:10 +0000
Subject: [PATCH 29/74] fix: read the requested instance of the identity object

---
 src/IdentityObject.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/IdentityObject.cpp b/src/IdentityObject.cpp
index 5e11fea..cebc3d9 100644
--- a/src/IdentityObject.cpp
+++ b/src/IdentityObject.cpp
@@ -37,7 +37,7 @@ namespace eipScanner {
 		auto response = messageRouter->sendRequest(
 				si,
 				ServiceCodes::GET_ATTRIBUTE_ALL,
-				EPath(CLASS_ID, 1),
+				EPath(CLASS_ID, instanceId),
 				{});
 
 		if (response.getGeneralStatusCode() == GeneralStatusCodes::SUCCESS) {
-- 
2.43.0


From f9bdc6cec5f2a5cb77c0530ab7dbdd1e41166f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:14 +0000
Subject: [PATCH 30/74] fix: reject parameter replies too short for their
 attributes

---
 src/ParameterObject.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/ParameterObject.cpp b/src/ParameterObject.cpp
index adc702b..11b8d9a 100644
--- a/src/ParameterObject.cpp
+++ b/src/ParameterObject.cpp
@@ -93,6 +93,9 @@ namespace eipScanner {
 			CipUsint dataSize;
 			Buffer buffer(response.getData());
 			buffer >> dataSize;
+			if (!buffer.isValid()) {
+				throw std::runtime_error("Not enough data in the response");
+			}
 
 			_value.resize(dataSize);
 			_minValue.resize(dataSize);
@@ -142,6 +145,9 @@ namespace eipScanner {
 					ignore.resize(16); // Ignore scaling attributes we read it separately due to a bug
 					buffer >> ignore
 						>> _precision;
+					if (!buffer.isValid()) {
+						throw std::runtime_error("Not enough data in the response");
+					}
 
 					std::vector<uint8_t> data;
 					for (int attrId = ParameterObjectAttributeIds::SCALING_MULTIPLIER;
@@ -167,7 +173,7 @@ namespace eipScanner {
 			}
 
 			if (!buffer.isValid()) {
-				std::runtime_error("Not enough data in the response");
+				throw std::runtime_error("Not enough data in the response");
 			}
 
 			Logger(LogLevel::DEBUG) << "Read Parameter Object"
@@ -189,7 +195,13 @@ namespace eipScanner {
 
 		if (response.getGeneralStatusCode() == GeneralStatusCodes::SUCCESS) {
 			Buffer buffer(response.getData());
-			buffer >> _value;
+			std::vector<uint8_t> value(_value.size());
+			buffer >> value;
+			if (!buffer.isValid()) {
+				throw std::runtime_error("Not enough data in the response");
+			}
+
+			_value = value;
 		} else {
 			cip::logGeneralAndAdditionalStatus(response);
 			throw std::runtime_error("Failed to read value");
-- 
2.43.0


From e51916ec41724a994ae34efcd55053f232325d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:25 +0000
Subject: [PATCH 31/74] fix: round to the nearest integer when a parameter
 limit is set in engineering units

---
 src/ParameterObject.h | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/ParameterObject.h b/src/ParameterObject.h
index c338f24..2b34045 100644
--- a/src/ParameterObject.h
+++ b/src/ParameterObject.h
@@ -7,6 +7,7 @@
 
 #include <cmath>
 #include <stdexcept>
+#include <type_traits>
 #include "MessageRouter.h"
 #include "utils/Buffer.h"
 #include "BaseObject.h"
@@ -148,7 +149,7 @@ public:
 	 */
 	template <typename T>
 	void setEngMinValue(cip::CipLreal value) {
-		T actualValue = static_cast<T>(engToActualValue(value));
+		T actualValue = castActualValue<T>(engToActualValue(value));
 		_minValue = decodeValue<T>(actualValue);
 	}
 
@@ -182,7 +183,7 @@ public:
 	 */
 	template <typename T>
 	void setEngMaxValue(cip::CipLreal value) {
-		T actualValue = static_cast<T>(engToActualValue(value));
+		T actualValue = castActualValue<T>(engToActualValue(value));
 		_maxValue = decodeValue<T>(actualValue);
 	}
 
@@ -216,7 +217,7 @@ public:
 	 */
 	template <typename T>
 	void setEngDefaultValue(cip::CipLreal value) {
-		T actualValue = static_cast<T>(engToActualValue(value));
+		T actualValue = castActualValue<T>(engToActualValue(value));
 		_defaultValue = decodeValue<T>(actualValue);
 	}
 
@@ -344,6 +345,16 @@ public:
 
 private:
 
+	template <typename T>
+	static T castActualValue(cip::CipLreal actualValue) {
+		if constexpr (std::is_integral_v<T>) {
+			// The inverse scaling isn't exact, e.g. it may give 28.999999999999996 instead of 29
+			return static_cast<T>(std::round(actualValue));
+		} else {
+			return static_cast<T>(actualValue);
+		}
+	}
+
 	template <typename T>
 	T encodeValue(const std::vector<uint8_t>& data) const {
 		utils::Buffer buffer(data);
-- 
2.43.0


From d2d28a2239a5307332e61f46bd14b4e547e272a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:29 +0000
Subject: [PATCH 32/74] fix: integer overflow of multiplier and base in the
 inverse scaling

---
 src/ParameterObject.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ParameterObject.cpp b/src/ParameterObject.cpp
index 11b8d9a..72cfd32 100644
--- a/src/ParameterObject.cpp
+++ b/src/ParameterObject.cpp
@@ -318,7 +318,7 @@ namespace eipScanner {
 	cip::CipLreal ParameterObject::engToActualValue(cip::CipLreal engValue) const {
 		if (_isScalable) {
 			return (engValue * _scalingDivisor * std::pow(10, _precision))
-				   / (_scalingMultiplier * _scalingBase) - _scalingOffset;
+				   / (static_cast<CipLreal>(_scalingMultiplier) * _scalingBase) - _scalingOffset;
 		} else {
 			return engValue;
 		}
-- 
2.43.0


From 0d09789c6bc2b9a77ce73a1a7b20543ae06a8692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:52 +0000
Subject: [PATCH 33/74] fix: uninitialised length of a default constructed CIP
 string

---
 src/cip/CipString.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cip/CipString.h b/src/cip/CipString.h
index 1cdc713..c0857fb 100644
--- a/src/cip/CipString.h
+++ b/src/cip/CipString.h
@@ -42,7 +42,7 @@ namespace cip {
 		}
 
 	private:
-		T _length;
+		T _length{0};
 		std::vector<uint8_t> _data;
 	};
 
-- 
2.43.0


From e83f84b0ea93ede177a1c86e13d8ffcad2f47db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:54 +0000
Subject: [PATCH 34/74] fix: reject PowerFlex fault replies too short for their
 values

---
 src/vendor/ra/powerFlex525/DPIFaultObject.cpp    | 4 ++++
 src/vendor/ra/powerFlex525/DPIFaultParameter.cpp | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/src/vendor/ra/powerFlex525/DPIFaultObject.cpp b/src/vendor/ra/powerFlex525/DPIFaultObject.cpp
index e3f99cb..af0b249 100644
--- a/src/vendor/ra/powerFlex525/DPIFaultObject.cpp
+++ b/src/vendor/ra/powerFlex525/DPIFaultObject.cpp
@@ -54,6 +54,10 @@ namespace powerFlex525 {
 
             cip::CipUint flags;
             buffer >> flags;
+            if (!buffer.isValid()) {
+                throw std::runtime_error("Not enough data in FULL_INFORMATION attribute");
+            }
+
             _fullInformation.isValidData = flags & VALID_DATA;
             _fullInformation.isRealTime = flags & REAL_TIME;
         } else {
diff --git a/src/vendor/ra/powerFlex525/DPIFaultParameter.cpp b/src/vendor/ra/powerFlex525/DPIFaultParameter.cpp
index db43afb..b4c89af 100644
--- a/src/vendor/ra/powerFlex525/DPIFaultParameter.cpp
+++ b/src/vendor/ra/powerFlex525/DPIFaultParameter.cpp
@@ -168,6 +168,9 @@ namespace powerFlex525 {
 			Buffer buffer(response.getData());
 			CipUint value;
 			buffer >> value;
+			if (!buffer.isValid()) {
+				throw std::runtime_error("Not enough data in the fault attribute");
+			}
 
 			return value;
 
-- 
2.43.0


From 5c2b15ee83205b1cd2ec45507be38263c93137a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:13 +0000
Subject: [PATCH 35/74] fix: check each scaling attribute of a parameter on its
 own

---
 src/ParameterObject.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ParameterObject.cpp b/src/ParameterObject.cpp
index 72cfd32..3403671 100644
--- a/src/ParameterObject.cpp
+++ b/src/ParameterObject.cpp
@@ -163,7 +163,12 @@ namespace eipScanner {
 							throw std::runtime_error("Failed to read value of attribute=" + std::to_string(attrId));
 						}
 
-						data.insert(data.end(), response.getData().begin(), response.getData().end());
+						const auto& attribute = response.getData();
+						if (attribute.size() < sizeof(CipUint)) {
+							throw std::runtime_error("Not enough data in the response");
+						}
+
+						data.insert(data.end(), attribute.begin(), attribute.begin() + sizeof(CipUint));
 					}
 
 					buffer = Buffer(data);
-- 
2.43.0


From 3a3fccf11f2b53609be48022e683708794174157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:48 +0000
Subject: [PATCH 36/74] fix: listeners of I/O connections may close, open or
 replace things while they run

---
 src/ConnectionManager.cpp | 24 ++++++++++++++++--------
 src/IOConnection.cpp      | 28 ++++++++++++++++++----------
 src/IOConnection.h        |  8 +++++---
 3 files changed, 39 insertions(+), 21 deletions(-)

diff --git a/src/ConnectionManager.cpp b/src/ConnectionManager.cpp
index 5449f39..d9ed9f6 100644
--- a/src/ConnectionManager.cpp
+++ b/src/ConnectionManager.cpp
@@ -219,15 +219,22 @@ namespace eipScanner {
 
 		BaseSocket::select(sockets, timeout);
 
-		std::vector<cip::CipUdint> connectionsToClose;
-		for (auto& entry : _connectionMap) {
-			if (!entry.second->notifyTick()) {
-				connectionsToClose.push_back(entry.first);
+		// Listeners may open and close connections, so go through a copy
+		std::vector<IOConnection::SPtr> connections;
+		std::transform(_connectionMap.begin(), _connectionMap.end(), std::back_inserter(connections), [](auto& entry) {
+			return entry.second;
+		});
+
+		for (auto& connection : connections) {
+			auto entry = _connectionMap.find(connection->_t2oNetworkConnectionId);
+			if (entry == _connectionMap.end() || entry->second != connection) {
+				continue; // closed by a listener in the meantime
 			}
-		}
 
-		for (auto& id : connectionsToClose) {
-			_connectionMap.erase(id);
+			if (!connection->notifyTick()) {
+				_connectionMap.erase(connection->_t2oNetworkConnectionId);
+				connection->notifyClose();
+			}
 		}
 	}
 
@@ -273,7 +280,8 @@ namespace eipScanner {
 
 				auto io = _connectionMap.find(connectionId);
 				if (io != _connectionMap.end()) {
-					io->second->notifyReceiveData(items[1].getData());
+					auto connection = io->second; // its listener may close it
+					connection->notifyReceiveData(items[1].getData());
 				} else {
 					Logger(LogLevel::ERROR) << "Received data from unknown connection T2O_ID=" << connectionId;
 				}
diff --git a/src/IOConnection.cpp b/src/IOConnection.cpp
index bd61000..5b3aff0 100644
--- a/src/IOConnection.cpp
+++ b/src/IOConnection.cpp
@@ -40,9 +40,9 @@ namespace eipScanner {
 			, _originatorVendorId{0}
 			, _originatorSerialNumber{0}
 			, _outputData()
-			, _receiveDataHandle([](auto, auto, auto) {})
-			, _closeHandle([]() {})
-			, _sendDataHandle([](auto) {})
+			, _receiveDataHandle()
+			, _closeHandle()
+			, _sendDataHandle()
 			, _lastSendTime(std::chrono::steady_clock::now())
 			, _lastReceiveTime(_lastSendTime) {
 	}
@@ -54,15 +54,15 @@ namespace eipScanner {
 	}
 
 	void IOConnection::setReceiveDataListener(ReceiveDataHandle handle) {
-		_receiveDataHandle = std::move(handle);
+		_receiveDataHandle = handle ? std::make_shared<ReceiveDataHandle>(std::move(handle)) : nullptr;
 	}
 
 	void IOConnection::setSendDataListener(SendDataHandle handle) {
-        	_sendDataHandle = std::move(handle);
+        	_sendDataHandle = handle ? std::make_shared<SendDataHandle>(std::move(handle)) : nullptr;
 	}
 
 	void IOConnection::setCloseListener(CloseHandle handle) {
-		_closeHandle = std::move(handle);
+		_closeHandle = handle ? std::make_shared<CloseHandle>(std::move(handle)) : nullptr;
 	}
 
 	void IOConnection::notifyReceiveData(const std::vector<uint8_t> &data) {
@@ -92,8 +92,9 @@ namespace eipScanner {
 				<< " bytes were received. Ignore this data.";
 		} else {
 			_lastReceiveTime = std::chrono::steady_clock::now();
-			_receiveDataHandle(runtimeHeader, sequenceValueCount,
-							   ioData);
+			if (auto handle = _receiveDataHandle) {
+				(*handle)(runtimeHeader, sequenceValueCount, ioData);
+			}
 		}
 	}
 
@@ -103,7 +104,6 @@ namespace eipScanner {
 				static_cast<uint64_t>(_connectionTimeoutMultiplier) * _t2oAPI);
 		if (now - _lastReceiveTime > connectionTimeout) {
 			Logger(LogLevel::WARNING) << "Connection SeriaNumber=" << _serialNumber << " is closed by timeout";
-			_closeHandle();
 			return false;
 		}
 
@@ -125,7 +125,9 @@ namespace eipScanner {
 			}
 
 			_lastSendTime = now;
-			_sendDataHandle(_outputData);
+			if (auto handle = _sendDataHandle) {
+				(*handle)(_outputData);
+			}
 			if (_o2tFixedSize && _outputData.size() != _o2tDataSize)  {
 				Logger(LogLevel::WARNING) << "Connection O2T_ID=" << _o2tNetworkConnectionId
 										  << " has fixed size " << _o2tDataSize << " bytes but " << _outputData.size()
@@ -145,4 +147,10 @@ namespace eipScanner {
 
 		return true;
 	}
+
+	void IOConnection::notifyClose() {
+		if (auto handle = _closeHandle) {
+			(*handle)();
+		}
+	}
 }
diff --git a/src/IOConnection.h b/src/IOConnection.h
index 3045434..1729c96 100644
--- a/src/IOConnection.h
+++ b/src/IOConnection.h
@@ -68,6 +68,7 @@ namespace eipScanner {
 		IOConnection();
 		void notifyReceiveData(const std::vector<uint8_t> &data);
 		bool notifyTick();
+		void notifyClose();
 
 		cip::CipUdint _o2tNetworkConnectionId;
 		cip::CipUdint _t2oNetworkConnectionId;
@@ -98,9 +99,10 @@ namespace eipScanner {
 
 		sockets::UDPSocket::UPtr _socket;
 
-		ReceiveDataHandle _receiveDataHandle;
-		CloseHandle _closeHandle;
-		SendDataHandle _sendDataHandle;
+		// A listener may replace itself while it runs, so each call keeps its listener alive
+		std::shared_ptr<ReceiveDataHandle> _receiveDataHandle;
+		std::shared_ptr<CloseHandle> _closeHandle;
+		std::shared_ptr<SendDataHandle> _sendDataHandle;
 
 		std::chrono::steady_clock::time_point _lastSendTime;
 		std::chrono::steady_clock::time_point _lastReceiveTime;
-- 
2.43.0


From 6f8e775165f360868203515d6a26f2a4e1fc071c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:00 +0000
Subject: [PATCH 37/74] fix: a fault listener may replace itself while it runs,
 an empty one is allowed

---
 src/vendor/ra/powerFlex525/DPIFaultManager.cpp | 8 +++++---
 src/vendor/ra/powerFlex525/DPIFaultManager.h   | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/vendor/ra/powerFlex525/DPIFaultManager.cpp b/src/vendor/ra/powerFlex525/DPIFaultManager.cpp
index 00f2334..2dfb311 100644
--- a/src/vendor/ra/powerFlex525/DPIFaultManager.cpp
+++ b/src/vendor/ra/powerFlex525/DPIFaultManager.cpp
@@ -31,7 +31,7 @@ namespace powerFlex525 {
 	}
 
 	DPIFaultManager::DPIFaultManager(bool clearFaults, bool resetDevice, bool getFaultDetails)
-		: _newFaultHandler([](auto){})
+		: _newFaultHandler()
 		, _trippedDeviceHandler([](auto){})
 		, _lastTrippedState(-1)
 		, _clearFaultsQueue(clearFaults)
@@ -40,7 +40,7 @@ namespace powerFlex525 {
 	}
 
 	void DPIFaultManager::setNewFaultListener(DPIFaultManager::NewFaultHandler handler) {
-		_newFaultHandler = std::move(handler);
+		_newFaultHandler = handler ? std::make_shared<NewFaultHandler>(std::move(handler)) : nullptr;
 	}
 
 	void DPIFaultManager::setTrippedDeviceListener(DPIFaultManager::TrippedDeviceHandler handler) {
@@ -67,7 +67,9 @@ namespace powerFlex525 {
 				faultInformation.setFaultDetails(faultDetails);
 			}
 			faultCount++;
-			_newFaultHandler(faultInformation);
+			if (auto handler = _newFaultHandler) {
+				(*handler)(faultInformation);
+			}
 		}
 
 		if (faultCount > 0) {
diff --git a/src/vendor/ra/powerFlex525/DPIFaultManager.h b/src/vendor/ra/powerFlex525/DPIFaultManager.h
index d56af02..5b62008 100644
--- a/src/vendor/ra/powerFlex525/DPIFaultManager.h
+++ b/src/vendor/ra/powerFlex525/DPIFaultManager.h
@@ -89,7 +89,7 @@ namespace powerFlex525 {
 				const MessageRouter::SPtr& messageRouter) const;
 
 	private:
-		NewFaultHandler _newFaultHandler;
+		std::shared_ptr<NewFaultHandler> _newFaultHandler; // may be replaced while it runs
 		TrippedDeviceHandler _trippedDeviceHandler;
 		cip::CipUsint _lastTrippedState;
 		bool _clearFaultsQueue; // clears fault queue after reading all fault
-- 
2.43.0


From 1c2137b87b6e04b4e0201229387ad023050e4caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:33 +0000
Subject: [PATCH 38/74] fix: a log appender may be replaced while it prints

---
 src/utils/Logger.cpp | 5 +++--
 src/utils/Logger.h   | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/utils/Logger.cpp b/src/utils/Logger.cpp
index 495bc84..0535010 100644
--- a/src/utils/Logger.cpp
+++ b/src/utils/Logger.cpp
@@ -9,7 +9,7 @@
 namespace eipScanner {
 namespace utils {
 	LogLevel Logger::_globalLogLevel = LogLevel::INFO;
-	LogAppenderIf::UPtr Logger::_appender = std::make_unique<ConsoleAppender>();
+	std::shared_ptr<LogAppenderIf> Logger::_appender = std::make_shared<ConsoleAppender>();
 
 	Logger::Logger(LogLevel logLevel): _logLevel{logLevel} {
 
@@ -17,7 +17,8 @@ namespace utils {
 
 	Logger::~Logger() {
 		if (_globalLogLevel != LogLevel::OFF && _logLevel <= _globalLogLevel) {
-			_appender->print(_logLevel, (_stream).str());
+			auto appender = _appender; // it may be replaced while it prints
+			appender->print(_logLevel, (_stream).str());
 		}
 	}
 
diff --git a/src/utils/Logger.h b/src/utils/Logger.h
index 95d1223..c49006c 100644
--- a/src/utils/Logger.h
+++ b/src/utils/Logger.h
@@ -95,7 +95,7 @@ namespace utils {
 
 	private:
 		static LogLevel _globalLogLevel;
-		static LogAppenderIf::UPtr _appender;
+		static std::shared_ptr<LogAppenderIf> _appender;
 
 		LogLevel _logLevel;
 		std::ostringstream _stream;
-- 
2.43.0


From 4845155ec2d491f975f94a91255c11e98dbdca0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:24 +0000
Subject: [PATCH 39/74] fix: a reply that arrives after its exchange failed was
 taken for the reply to the next request

---
 src/SessionInfo.cpp | 9 ++++++++-
 src/SessionInfo.h   | 1 +
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/SessionInfo.cpp b/src/SessionInfo.cpp
index be5c204..6d9fb68 100644
--- a/src/SessionInfo.cpp
+++ b/src/SessionInfo.cpp
@@ -19,7 +19,8 @@ namespace eipScanner {
 
 	SessionInfo::SessionInfo(const std::string &host, int port, const std::chrono::milliseconds &timeout)
 			: _socket{sockets::EndPoint(host, port), timeout}
-			, _sessionHandle{0} {
+			, _sessionHandle{0}
+			, _outOfSync{false} {
 		_socket.setRecvTimeout(timeout);
 
 		EncapsPacket packet = EncapsPacketFactory().createRegisterSessionPacket();
@@ -50,10 +51,16 @@ namespace eipScanner {
 	}
 
 	EncapsPacket SessionInfo::sendAndReceive(const EncapsPacket& packet) const {
+		if (_outOfSync) {
+			throw std::runtime_error("Session is out of sync after a failed exchange, open a new one");
+		}
+
+		_outOfSync = true;
 		_socket.Send(packet.pack());
 		auto header = _socket.Receive(EncapsPacket::HEADER_SIZE);
 		auto length = EncapsPacket::getLengthFromHeader(header);
 		auto data = _socket.Receive(length);
+		_outOfSync = false;
 
 		header.insert(header.end(), data.begin(), data.end());
 
diff --git a/src/SessionInfo.h b/src/SessionInfo.h
index 313abe6..f438dba 100644
--- a/src/SessionInfo.h
+++ b/src/SessionInfo.h
@@ -69,6 +69,7 @@ namespace eipScanner {
 	private:
 		sockets::TCPSocket _socket;
 		cip::CipUdint _sessionHandle;
+		mutable bool _outOfSync; // an exchange failed, its reply may still arrive
 
 	};
 }
-- 
2.43.0


From ffac3f25105cd4e88f67436cb50d60b6a0977fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:50 +0000
Subject: [PATCH 40/74] fix: waiting for sockets failed when a signal
 interrupted it

---
 src/sockets/BaseSocket.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sockets/BaseSocket.cpp b/src/sockets/BaseSocket.cpp
index 35d1113..c4eddca 100644
--- a/src/sockets/BaseSocket.cpp
+++ b/src/sockets/BaseSocket.cpp
@@ -140,6 +140,12 @@ namespace sockets {
 
 			ready = ::select(socketWithMaxFd->getSocketFd() + 1, &recvSet, NULL, NULL, &tv);
 			if (ready < 0) {
+				if (BaseSocket::getLastError() == EIPSCANNER_SOCKET_ERROR(EINTR)) {
+					// Interrupted by a signal, wait for the rest of the time
+					ready = 1;
+					startTime = std::chrono::steady_clock::now();
+					continue;
+				}
 				throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
 			}
 
-- 
2.43.0


From d693f043a074871fac5cbabc353f0733eadbd455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:52 +0000
Subject: [PATCH 41/74] fix: every signal started the connect timeout anew

---
 src/sockets/TCPSocket.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sockets/TCPSocket.cpp b/src/sockets/TCPSocket.cpp
index 3eeb3e8..ef0e24f 100644
--- a/src/sockets/TCPSocket.cpp
+++ b/src/sockets/TCPSocket.cpp
@@ -64,9 +64,11 @@ namespace eipScanner {
 				auto res = connect(_sockedFd, (struct sockaddr *) &addr, sizeof(addr));
 				if (res < 0) {
 					if (BaseSocket::getLastError() == EIPSCANNER_SOCKET_ERROR(EINPROGRESS)) {
+						auto restOfTime = connTimeout;
+						auto stopTime = std::chrono::steady_clock::now() + connTimeout;
 						do {
 							fd_set myset;
-							auto tv = makePortableInterval(connTimeout);
+							auto tv = makePortableInterval(restOfTime);
 
 							FD_ZERO(&myset);
 							FD_SET(_sockedFd, &myset);
@@ -74,6 +76,9 @@ namespace eipScanner {
 
 							if (res < 0) {
 								if (BaseSocket::getLastError() == EIPSCANNER_SOCKET_ERROR(EINTR)) {
+									// Wait for the rest of the time, rounded up
+									restOfTime = std::chrono::duration_cast<std::chrono::milliseconds>(
+											stopTime - std::chrono::steady_clock::now()) + std::chrono::milliseconds(1);
 									continue;
 								}
 								throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
-- 
2.43.0


From dfa810d0316c891e0aaad89db5bdcf5ffc805fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:55 +0000
Subject: [PATCH 42/74] fix: logging before the error check could replace the
 error code of a UDP receive

---
 src/sockets/UDPSocket.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sockets/UDPSocket.cpp b/src/sockets/UDPSocket.cpp
index 69e5460..f19f00e 100644
--- a/src/sockets/UDPSocket.cpp
+++ b/src/sockets/UDPSocket.cpp
@@ -70,10 +70,11 @@ namespace sockets {
 		std::vector<uint8_t> recvBuffer(size);
 
 		auto len = recvfrom(_sockedFd, (char*)recvBuffer.data(), recvBuffer.size(), 0, NULL, NULL);
-		Logger(LogLevel::TRACE) << "Received " << len << " bytes from UDP socket #" << _sockedFd << ".";
 		if (len < 0) {
+			// Logging in between could change the error code
 			throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
 		}
+		Logger(LogLevel::TRACE) << "Received " << len << " bytes from UDP socket #" << _sockedFd << ".";
 
 		recvBuffer.resize(len);
 		return recvBuffer;
@@ -84,10 +85,10 @@ namespace sockets {
 		struct sockaddr_in addr;
 		socklen_t addrFromLength = sizeof(addr);
 		auto len = recvfrom(_sockedFd, (char*)recvBuffer.data(), recvBuffer.size(), 0, (struct sockaddr*)&addr, &addrFromLength);
-		Logger(LogLevel::TRACE) << "Received " << len << " bytes from UDP socket #" << _sockedFd << ".";
 		if (len < 0) {
 			throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
 		}
+		Logger(LogLevel::TRACE) << "Received " << len << " bytes from UDP socket #" << _sockedFd << ".";
 
 		endPoint = EndPoint(addr);
 		recvBuffer.resize(len);
-- 
2.43.0


From ee7abe1ba91a3fff494b5870194eb023931b3d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:58 +0000
Subject: [PATCH 43/74] fix: the TCP socket leaked its descriptor when it could
 not be made non-blocking

---
 src/sockets/TCPSocket.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sockets/TCPSocket.cpp b/src/sockets/TCPSocket.cpp
index ef0e24f..54355d0 100644
--- a/src/sockets/TCPSocket.cpp
+++ b/src/sockets/TCPSocket.cpp
@@ -46,13 +46,13 @@ namespace eipScanner {
 			// Set non-blocking
 #if defined(__unix__) || defined(__APPLE__)
 			auto arg = fcntl(_sockedFd, F_GETFL, NULL);
-			if (arg < 0) {
-				throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
+			if (arg >= 0) {
+				arg = fcntl(_sockedFd, F_SETFL, arg | O_NONBLOCK);
 			}
-
-			arg |= O_NONBLOCK;
-			if (fcntl(_sockedFd, F_SETFL, arg) < 0) {
-				throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
+			if (arg < 0) {
+				std::system_error error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
+				Close();
+				throw error;
 			}
 #endif
 
-- 
2.43.0


From 92b95ea9bb4a7db1bee7e04fe09c078c85eec4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:01 +0000
Subject: [PATCH 44/74] fix: descriptors that do not fit into fd_set corrupted
 memory

---
 src/sockets/BaseSocket.cpp | 7 +++++++
 src/sockets/TCPSocket.cpp  | 6 ++++++
 2 files changed, 13 insertions(+)

diff --git a/src/sockets/BaseSocket.cpp b/src/sockets/BaseSocket.cpp
index c4eddca..77c4050 100644
--- a/src/sockets/BaseSocket.cpp
+++ b/src/sockets/BaseSocket.cpp
@@ -126,6 +126,13 @@ namespace sockets {
 			return sock1->getSocketFd() < sock2->getSocketFd();
 		});
 
+#if defined(__unix__) || defined(__APPLE__)
+		if (socketWithMaxFd->getSocketFd() >= FD_SETSIZE) {
+			// fd_set can't hold this descriptor
+			throw std::system_error(EINVAL, std::generic_category());
+		}
+#endif
+
 		auto startTime = std::chrono::steady_clock::now();
 		auto stopTime = startTime + timeout;
 		int ready;
diff --git a/src/sockets/TCPSocket.cpp b/src/sockets/TCPSocket.cpp
index 54355d0..59e4d2d 100644
--- a/src/sockets/TCPSocket.cpp
+++ b/src/sockets/TCPSocket.cpp
@@ -66,6 +66,12 @@ namespace eipScanner {
 					if (BaseSocket::getLastError() == EIPSCANNER_SOCKET_ERROR(EINPROGRESS)) {
 						auto restOfTime = connTimeout;
 						auto stopTime = std::chrono::steady_clock::now() + connTimeout;
+#if defined(__unix__) || defined(__APPLE__)
+						if (_sockedFd >= FD_SETSIZE) {
+							// fd_set can't hold this descriptor
+							throw std::system_error(EINVAL, std::generic_category());
+						}
+#endif
 						do {
 							fd_set myset;
 							auto tv = makePortableInterval(restOfTime);
-- 
2.43.0


From eb229eb59b488b77441c9610fc92f9a5a0d88a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:05 +0000
Subject: [PATCH 45/74] fix: a connection that shares its T2O ID with an open
 one was dropped and got no data

---
 src/ConnectionManager.cpp | 39 +++++++++++++++++++++++----------------
 src/ConnectionManager.h   |  5 ++++-
 2 files changed, 27 insertions(+), 17 deletions(-)

diff --git a/src/ConnectionManager.cpp b/src/ConnectionManager.cpp
index d9ed9f6..3775929 100644
--- a/src/ConnectionManager.cpp
+++ b/src/ConnectionManager.cpp
@@ -156,13 +156,7 @@ namespace eipScanner {
 
 			findOrCreateSocket(sockets::EndPoint(si->getRemoteEndPoint().getHost(), EIP_DEFAULT_IMPLICIT_PORT));
 
-			auto result = _connectionMap
-					.insert(std::make_pair(response.getT2ONetworkConnectionId(), ioConnection));
-			if (!result.second) {
-				Logger(LogLevel::ERROR)
-					<< "Connection with T2O_ID=" << response.getT2ONetworkConnectionId()
-					<< " already exists.";
-			}
+			_connectionMap.insert(std::make_pair(response.getT2ONetworkConnectionId(), ioConnection));
 		} else {
 			logGeneralAndAdditionalStatus(messageRouterResponse);
 		}
@@ -188,8 +182,8 @@ namespace eipScanner {
 					<< ptr->_t2oNetworkConnectionId;
 
 			// The connection is removed anyway and may be removed by timeout already
-			auto entry = _connectionMap.find(ptr->_t2oNetworkConnectionId);
-			if (entry != _connectionMap.end() && entry->second == ptr) {
+			auto entry = findConnection(ptr);
+			if (entry != _connectionMap.end()) {
 				_connectionMap.erase(entry);
 			}
 
@@ -226,18 +220,27 @@ namespace eipScanner {
 		});
 
 		for (auto& connection : connections) {
-			auto entry = _connectionMap.find(connection->_t2oNetworkConnectionId);
-			if (entry == _connectionMap.end() || entry->second != connection) {
+			if (findConnection(connection) == _connectionMap.end()) {
 				continue; // closed by a listener in the meantime
 			}
 
 			if (!connection->notifyTick()) {
-				_connectionMap.erase(connection->_t2oNetworkConnectionId);
+				_connectionMap.erase(findConnection(connection));
 				connection->notifyClose();
 			}
 		}
 	}
 
+	ConnectionManager::ConnectionMap::iterator
+	ConnectionManager::findConnection(const IOConnection::SPtr& ioConnection) {
+		auto range = _connectionMap.equal_range(ioConnection->_t2oNetworkConnectionId);
+		auto entry = std::find_if(range.first, range.second, [&ioConnection](const auto& other) {
+			return other.second == ioConnection;
+		});
+
+		return entry != range.second ? entry : _connectionMap.end();
+	}
+
 	UDPBoundSocket::SPtr ConnectionManager::findOrCreateSocket(const sockets::EndPoint& endPoint) {
 		auto socket = _socketMap.find(endPoint);
 		if (socket == _socketMap.end()) {
@@ -278,10 +281,14 @@ namespace eipScanner {
 				}
 				Logger(LogLevel::DEBUG) << "Received data from connection T2O_ID=" << connectionId;
 
-				auto io = _connectionMap.find(connectionId);
-				if (io != _connectionMap.end()) {
-					auto connection = io->second; // its listener may close it
-					connection->notifyReceiveData(items[1].getData());
+				auto range = _connectionMap.equal_range(connectionId);
+				if (range.first != range.second) {
+					// listeners may close connections, so go through a copy
+					for (auto& io : ConnectionMap(range.first, range.second)) {
+						if (findConnection(io.second) != _connectionMap.end()) {
+							io.second->notifyReceiveData(items[1].getData());
+						}
+					}
 				} else {
 					Logger(LogLevel::ERROR) << "Received data from unknown connection T2O_ID=" << connectionId;
 				}
diff --git a/src/ConnectionManager.h b/src/ConnectionManager.h
index ab54392..0b7a2bf 100644
--- a/src/ConnectionManager.h
+++ b/src/ConnectionManager.h
@@ -75,9 +75,12 @@ namespace eipScanner {
 		bool hasOpenConnections() const;
 	private:
 		MessageRouter::SPtr _messageRouter;
-		std::map<cip::CipUdint, IOConnection::SPtr> _connectionMap;
+		// Connections that share a multicast production of the target have the same T2O ID
+		using ConnectionMap = std::multimap<cip::CipUdint, IOConnection::SPtr>;
+		ConnectionMap _connectionMap;
 		std::map<sockets::EndPoint, std::shared_ptr<sockets::UDPBoundSocket>> _socketMap;
 
+		ConnectionMap::iterator findConnection(const IOConnection::SPtr& ioConnection);
 		sockets::UDPBoundSocket::SPtr  findOrCreateSocket(const sockets::EndPoint& endPoint);
 		cip::CipUint _incarnationId;
 	};
-- 
2.43.0


From 90204fd386486dd71ef02f85764b7ecc47153260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:26 +0000
Subject: [PATCH 46/74] fix: refuse paths that do not fit 8-bit segments
 instead of addressing another object

---
 src/cip/EPath.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cip/EPath.cpp b/src/cip/EPath.cpp
index 164914d..972e5e6 100644
--- a/src/cip/EPath.cpp
+++ b/src/cip/EPath.cpp
@@ -53,6 +53,11 @@ namespace cip {
 	std::vector<uint8_t> EPath::packPaddedPath(bool use_8_bit_path_segments) const {
         if (use_8_bit_path_segments)
         {
+            const CipUint maxId = 0xFF;
+            if (_classId > maxId || (_size > 1 && _objectId > maxId) || (_size > 2 && _attributeId > maxId)) {
+                throw std::runtime_error("EPATH " + toString() + " doesn't fit 8-bit segments");
+            }
+
             Buffer buffer(_size*2);
 
             auto classSegment = static_cast<CipUsint>(EPathSegmentTypes::CLASS_8_BITS);
-- 
2.43.0


From 1b41c89483b65e0a73e30d1a3f2fc89a40bd913b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 47/74] fix: refuse encapsulation payloads longer than the
 length field can tell

---
 src/eip/EncapsPacket.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/eip/EncapsPacket.cpp b/src/eip/EncapsPacket.cpp
index adc65a4..43f8a8e 100644
--- a/src/eip/EncapsPacket.cpp
+++ b/src/eip/EncapsPacket.cpp
@@ -2,6 +2,7 @@
 // Created by flipback on 11/16/19.
 //
 
+#include <limits>
 #include <string>
 #include <stdexcept>
 #include "EncapsPacket.h"
@@ -94,6 +95,10 @@ namespace eip {
 	}
 
 	void EncapsPacket::setData(const std::vector<uint8_t> &data) {
+		if (data.size() > std::numeric_limits<cip::CipUint>::max()) {
+			throw std::runtime_error("EncapsPacket can't hold " + std::to_string(data.size()) + " bytes of data");
+		}
+
 		_data = data;
 		_length = data.size();
 	}
-- 
2.43.0


From c472177c5cedb2400a709535a400405e6cef8d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:54 +0000
Subject: [PATCH 48/74] fix: refuse common packet items and item counts that do
 not fit their length fields

---
 src/IOConnection.cpp         | 4 ++--
 src/eip/CommonPacket.cpp     | 6 ++++++
 src/eip/CommonPacketItem.cpp | 7 ++++++-
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/IOConnection.cpp b/src/IOConnection.cpp
index 5b3aff0..29119e4 100644
--- a/src/IOConnection.cpp
+++ b/src/IOConnection.cpp
@@ -134,11 +134,11 @@ namespace eipScanner {
 										  << " bytes are to send. Don't send this data.";
 			} else {
 				buffer << _outputData;
-				commonPacket << factory.createConnectedDataItem(buffer.data());
 
 				try {
+					commonPacket << factory.createConnectedDataItem(buffer.data());
 					_socket->Send(commonPacket.pack());
-				} catch (const std::system_error& e) {
+				} catch (const std::runtime_error& e) {
 					Logger(LogLevel::WARNING) << "Connection O2T_ID=" << _o2tNetworkConnectionId
 											  << " failed to send data: " << e.what();
 				}
diff --git a/src/eip/CommonPacket.cpp b/src/eip/CommonPacket.cpp
index 3da3208..b33f193 100644
--- a/src/eip/CommonPacket.cpp
+++ b/src/eip/CommonPacket.cpp
@@ -1,7 +1,9 @@
 //
 // Created by Aleksey Timin on 11/16/19.
 //
+#include <limits>
 #include <stdexcept>
+#include <string>
 #include "CommonPacket.h"
 #include "utils/Buffer.h"
 #include "cip/Types.h"
@@ -22,6 +24,10 @@ namespace eip {
 	}
 
 	std::vector<uint8_t> CommonPacket::pack() const {
+		if (_items.size() > std::numeric_limits<cip::CipUint>::max()) {
+			throw std::runtime_error("Common Packet can't hold " + std::to_string(_items.size()) + " items");
+		}
+
 		Buffer buffer;
 
 		buffer << static_cast<cip::CipUint>(_items.size());
diff --git a/src/eip/CommonPacketItem.cpp b/src/eip/CommonPacketItem.cpp
index b716caf..38578b3 100644
--- a/src/eip/CommonPacketItem.cpp
+++ b/src/eip/CommonPacketItem.cpp
@@ -2,6 +2,9 @@
 // Created by Aleksey Timin on 11/16/19.
 //
 
+#include <limits>
+#include <stdexcept>
+#include <string>
 #include "utils/Buffer.h"
 #include "CommonPacketItem.h"
 
@@ -20,7 +23,9 @@ namespace eip {
 		: _typeId{typeId}
 		, _length(data.size())
 		, _data(data) {
-
+		if (data.size() > std::numeric_limits<cip::CipUint>::max()) {
+			throw std::runtime_error("Common Packet item can't hold " + std::to_string(data.size()) + " bytes of data");
+		}
 	}
 
 	CommonPacketItem::~CommonPacketItem() = default;
-- 
2.43.0


From 25b44935ae568becf8f7978da80aa21e27852fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:24 +0000
Subject: [PATCH 49/74] fix: refuse CIP strings longer than their length field
 can tell

---
 src/cip/CipString.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/cip/CipString.h b/src/cip/CipString.h
index c0857fb..d439fcb 100644
--- a/src/cip/CipString.h
+++ b/src/cip/CipString.h
@@ -6,7 +6,8 @@
 #define EIPSCANNER_CIP_STRINGS_H
 
 #include <cstring>
-#include <iterator>
+#include <limits>
+#include <stdexcept>
 #include <string>
 #include <vector>
 #include "Types.h"
@@ -17,12 +18,15 @@ namespace cip {
 	class CipBaseString {
 	public:
 		CipBaseString() = default;
-		explicit CipBaseString(const std::string& string) {
-			_length = string.size();
-			std::copy(string.begin(), string.end(), std::back_inserter(_data));
+		explicit CipBaseString(const std::string& string)
+			: CipBaseString(std::vector<uint8_t>(string.begin(), string.end())) {
 		}
 
 		CipBaseString(const std::vector<uint8_t>& data) {
+			if (data.size() > std::numeric_limits<T>::max()) {
+				throw std::runtime_error("CIP string can't hold " + std::to_string(data.size()) + " characters");
+			}
+
 			_length = data.size();
 			_data = data;
 		}
-- 
2.43.0


From 2564e05ff9cfa44212a94304e06c26a7848283a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:30 +0000
Subject: [PATCH 50/74] fix: refuse to open connections whose path or size does
 not fit the request

---
 src/ConnectionManager.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ConnectionManager.cpp b/src/ConnectionManager.cpp
index 3775929..52e9357 100644
--- a/src/ConnectionManager.cpp
+++ b/src/ConnectionManager.cpp
@@ -70,6 +70,11 @@ namespace eipScanner {
 		auto o2tSize = o2tNCP.getConnectionSize();
 		auto t2oSize = t2oNCP.getConnectionSize();
 
+		const size_t maxPathSize = 0xFF * 2;
+		if (connectionParameters.connectionPath.size() > maxPathSize) {
+			throw std::runtime_error("The connection path is too long");
+		}
+
 		connectionParameters.connectionPathSize = (connectionParameters.connectionPath .size() / 2)
 				+ (connectionParameters.connectionPath.size() % 2);
 
@@ -87,6 +92,11 @@ namespace eipScanner {
 			connectionParameters.t2oNetworkConnectionParams += 4;
 		}
 
+		if (NetworkConnectionParametersBuilder(connectionParameters.o2tNetworkConnectionParams, isLarge).getConnectionSize() < o2tSize
+			|| NetworkConnectionParametersBuilder(connectionParameters.t2oNetworkConnectionParams, isLarge).getConnectionSize() < t2oSize) {
+			throw std::runtime_error("The connection size with its headers is too large");
+		}
+
 		MessageRouterResponse messageRouterResponse;
 		if (isLarge) {
 			LargeForwardOpenRequest request(connectionParameters);
-- 
2.43.0


From cef0f8ab822277e8c45b5b80472023fc752e8755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 51/74] fix: refuse large network connection parameters in the
 small forward open

---
 src/ConnectionManager.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ConnectionManager.cpp b/src/ConnectionManager.cpp
index 52e9357..8a65fd7 100644
--- a/src/ConnectionManager.cpp
+++ b/src/ConnectionManager.cpp
@@ -54,6 +54,12 @@ namespace eipScanner {
 		static int serialNumberCount = 0;
 		connectionParameters.connectionSerialNumber = ++serialNumberCount;
 
+		const cip::CipUdint maxSmallParams = 0xFFFF;
+		if (!isLarge && (connectionParameters.o2tNetworkConnectionParams > maxSmallParams
+				|| connectionParameters.t2oNetworkConnectionParams > maxSmallParams)) {
+			throw std::runtime_error("The network connection parameters need a large forward open");
+		}
+
 		NetworkConnectionParametersBuilder o2tNCP(connectionParameters.o2tNetworkConnectionParams, isLarge);
 		NetworkConnectionParametersBuilder t2oNCP(connectionParameters.t2oNetworkConnectionParams, isLarge);
 
-- 
2.43.0


From 2d229e17c0a9c92738b0f71a44024fbc1d586700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:28 +0000
Subject: [PATCH 52/74] fix: refuse reserved timeout multipliers, whose shift
 overflows

---
 src/ConnectionManager.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ConnectionManager.cpp b/src/ConnectionManager.cpp
index 8a65fd7..b5dce78 100644
--- a/src/ConnectionManager.cpp
+++ b/src/ConnectionManager.cpp
@@ -54,6 +54,11 @@ namespace eipScanner {
 		static int serialNumberCount = 0;
 		connectionParameters.connectionSerialNumber = ++serialNumberCount;
 
+		const cip::CipUsint maxTimeoutMultiplier = 7;
+		if (connectionParameters.connectionTimeoutMultiplier > maxTimeoutMultiplier) {
+			throw std::runtime_error("The connection timeout multiplier is reserved");
+		}
+
 		const cip::CipUdint maxSmallParams = 0xFFFF;
 		if (!isLarge && (connectionParameters.o2tNetworkConnectionParams > maxSmallParams
 				|| connectionParameters.t2oNetworkConnectionParams > maxSmallParams)) {
-- 
2.43.0


From ce884ee2c0593402dce3974e02beae9e943c461b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 53/74] fix: refuse connection sizes that don't fit the small
 network connection parameters

---
 .../NetworkConnectionParametersBuilder.cpp                 | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cip/connectionManager/NetworkConnectionParametersBuilder.cpp b/src/cip/connectionManager/NetworkConnectionParametersBuilder.cpp
index e4d0077..7dcf00c 100644
--- a/src/cip/connectionManager/NetworkConnectionParametersBuilder.cpp
+++ b/src/cip/connectionManager/NetworkConnectionParametersBuilder.cpp
@@ -4,6 +4,8 @@
 
 #include "NetworkConnectionParametersBuilder.h"
 
+#include <stdexcept>
+#include <string>
 #include <utility>
 #include <assert.h>
 #include "utils/Buffer.h"
@@ -68,8 +70,11 @@ namespace connectionManager {
 		if (_lfo) {
 			mask = 0x0000FFFF;
 		}
+		if (val > mask) {
+			throw std::runtime_error("The connection size " + std::to_string(val) + " needs a large forward open");
+		}
 		_value &= ~mask;
-		_value |= val & mask;
+		_value |= val;
 		return *this;
 	}
 
-- 
2.43.0


From 2ab95a7e783d4e35cc7df80d5ed53febb3cb700a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:27 +0000
Subject: [PATCH 54/74] fix: refuse ports out of range instead of using another
 port

---
 src/sockets/EndPoint.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sockets/EndPoint.cpp b/src/sockets/EndPoint.cpp
index e1b4c8b..d9e28f5 100644
--- a/src/sockets/EndPoint.cpp
+++ b/src/sockets/EndPoint.cpp
@@ -13,6 +13,7 @@
 #include <ws2tcpip.h>
 #endif
 
+#include <stdexcept>
 #include <system_error>
 #include <utility>
 
@@ -30,6 +31,11 @@ namespace sockets {
 		, _port(port)
 		, _addr{} {
 
+		const int maxPort = 0xFFFF;
+		if (port < 0 || port > maxPort) {
+			throw std::runtime_error("The port " + std::to_string(port) + " is out of range");
+		}
+
 		_addr.sin_family = AF_INET;
 		_addr.sin_port = htons(_port);
 #if defined(__unix__) || defined(__APPLE__)
-- 
2.43.0


From fc60c11393e8ab3bc68e124fe051d1cd52f21a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:38 +0000
Subject: [PATCH 55/74] fix: refuse to pack a forward close whose path doesn't
 fit its length field

---
 src/cip/connectionManager/ForwardCloseRequest.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cip/connectionManager/ForwardCloseRequest.cpp b/src/cip/connectionManager/ForwardCloseRequest.cpp
index 4134f80..88bb96a 100644
--- a/src/cip/connectionManager/ForwardCloseRequest.cpp
+++ b/src/cip/connectionManager/ForwardCloseRequest.cpp
@@ -1,6 +1,7 @@
 //
 // Created by Aleksey Timin on 11/19/19.
 //
+#include <stdexcept>
 #include "ForwardCloseRequest.h"
 #include "utils/Buffer.h"
 
@@ -24,6 +25,11 @@ namespace connectionManager {
 		CipUsint timeOutTicks = 0;
 		CipUsint reserved = 0;
 
+		const size_t maxPathSize = 0xFF * 2;
+		if (_connectionPath.size() > maxPathSize) {
+			throw std::runtime_error("The connection path is too long");
+		}
+
 		buffer << timeTick
 			<< timeOutTicks
 			<< _connectionSerialNumber
-- 
2.43.0


From 62bdf49f7ddf43513cac71995b743695e805dec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:05 +0000
Subject: [PATCH 56/74] fix: a missing or throwing log appender must not
 terminate the process

---
 src/utils/Logger.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/utils/Logger.cpp b/src/utils/Logger.cpp
index 0535010..005e7ed 100644
--- a/src/utils/Logger.cpp
+++ b/src/utils/Logger.cpp
@@ -17,8 +17,14 @@ namespace utils {
 
 	Logger::~Logger() {
 		if (_globalLogLevel != LogLevel::OFF && _logLevel <= _globalLogLevel) {
-			auto appender = _appender; // it may be replaced while it prints
-			appender->print(_logLevel, (_stream).str());
+			try {
+				auto appender = _appender; // it may be replaced while it prints
+				if (appender) {
+					appender->print(_logLevel, (_stream).str());
+				}
+			} catch (...) {
+				// The message is lost, a destructor must not throw
+			}
 		}
 	}
 
-- 
2.43.0


From 95812b282677ea969013ec8c0c7361fe9eff7c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:10 +0000
Subject: [PATCH 57/74] fix: the destructor of a file object state must not
 throw

---
 src/fileObject/FileObjectState.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fileObject/FileObjectState.cpp b/src/fileObject/FileObjectState.cpp
index e281e22..54dbc79 100644
--- a/src/fileObject/FileObjectState.cpp
+++ b/src/fileObject/FileObjectState.cpp
@@ -27,7 +27,11 @@ namespace fileObject {
 	}
 
 	FileObjectState::~FileObjectState() {
-		logWithStateName(utils::LogLevel::TRACE, "Stop");
+		try {
+			logWithStateName(utils::LogLevel::TRACE, "Stop");
+		} catch (...) {
+			// The message is lost, a destructor must not throw
+		}
 	}
 
 	FileObjectStateCodes FileObjectState::getStateCode() const {
-- 
2.43.0


From 7ee04342434cf85a85f864a2558e1acd9efcafeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:15 +0000
Subject: [PATCH 58/74] fix: TCPSocket leaked its descriptor when logging
 failed before the connect

---
 src/sockets/TCPSocket.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sockets/TCPSocket.cpp b/src/sockets/TCPSocket.cpp
index 59e4d2d..d801180 100644
--- a/src/sockets/TCPSocket.cpp
+++ b/src/sockets/TCPSocket.cpp
@@ -58,8 +58,8 @@ namespace eipScanner {
 
 			Logger(LogLevel::DEBUG) << "Opened TCP socket fd=" << _sockedFd;
 
-			Logger(LogLevel::DEBUG) << "Connecting to " << _remoteEndPoint.toString();
 			try {
+				Logger(LogLevel::DEBUG) << "Connecting to " << _remoteEndPoint.toString();
 				auto addr = _remoteEndPoint.getAddr();
 				auto res = connect(_sockedFd, (struct sockaddr *) &addr, sizeof(addr));
 				if (res < 0) {
-- 
2.43.0


From 32937f38b7be20f3d147e6117e8cc59067f3da07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:18 +0000
Subject: [PATCH 59/74] fix: running out of memory at the end of an upload lost
 its handler

---
 src/fileObject/FileObjectUploadInProgressState.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fileObject/FileObjectUploadInProgressState.cpp b/src/fileObject/FileObjectUploadInProgressState.cpp
index f94f44e..1c0319c 100644
--- a/src/fileObject/FileObjectUploadInProgressState.cpp
+++ b/src/fileObject/FileObjectUploadInProgressState.cpp
@@ -116,8 +116,9 @@ namespace fileObject {
 	}
 
 	void FileObjectUploadInProgressState::finish(cip::GeneralStatusCodes status, std::vector<uint8_t> fileContent) {
+		auto nextState = std::make_unique<FileObjectLoadedState>(_owner, _objectId, _messageRouter);
 		auto handler = std::move(_handler);
-		setState<FileObjectLoadedState>(); // destroys this state
+		_owner.getState() = std::move(nextState); // destroys this state
 		handler(status, fileContent);
 	}
 }
-- 
2.43.0


From edc265069a0ada47512e0985fcff512b49cb7a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:44 +0000
Subject: [PATCH 60/74] fix: CommonPacket::expand read freed memory when given
 an item of the packet itself

---
 src/eip/CommonPacket.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eip/CommonPacket.cpp b/src/eip/CommonPacket.cpp
index b33f193..21148b8 100644
--- a/src/eip/CommonPacket.cpp
+++ b/src/eip/CommonPacket.cpp
@@ -39,9 +39,10 @@ namespace eip {
 	}
 
 	void CommonPacket::expand(const std::vector<uint8_t> &data) {
+		// The data may belong to one of the items
+		Buffer buffer(data);
 		_items.clear();
 
-		Buffer buffer(data);
 		cip::CipUint count;
 		buffer >> count;
 		if (!buffer.isValid()) {
-- 
2.43.0


From 1c95408f860d861f5383488602175291e31d73e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:06 +0000
Subject: [PATCH 61/74] fix: a copy of a socket closed the descriptor of the
 original

---
 src/sockets/BaseSocket.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sockets/BaseSocket.h b/src/sockets/BaseSocket.h
index 1019fab..a76b385 100644
--- a/src/sockets/BaseSocket.h
+++ b/src/sockets/BaseSocket.h
@@ -27,6 +27,10 @@ namespace sockets {
 		BaseSocket(std::string host, int port);
 		virtual ~BaseSocket();
 
+		// A copy would close the descriptor of the original
+		BaseSocket(const BaseSocket&) = delete;
+		BaseSocket& operator=(const BaseSocket&) = delete;
+
 		virtual void Send(const std::vector<uint8_t>& data) const = 0;
 		virtual std::vector<uint8_t> Receive(size_t size) const = 0;
 		void setBeginReceiveHandler(BeginReceiveHandler handler);
-- 
2.43.0


From 4986149ded3b902661cf376553166126a959dc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:12 +0000
Subject: [PATCH 62/74] fix: the sockets of a copied connection manager
 referred to the original

---
 src/ConnectionManager.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ConnectionManager.h b/src/ConnectionManager.h
index 0b7a2bf..dc65bd5 100644
--- a/src/ConnectionManager.h
+++ b/src/ConnectionManager.h
@@ -37,6 +37,10 @@ namespace eipScanner {
 		 */
 		~ConnectionManager();
 
+		// The handlers of the sockets refer to the manager
+		ConnectionManager(const ConnectionManager&) = delete;
+		ConnectionManager& operator=(const ConnectionManager&) = delete;
+
 		/**
 		 * @brief Opens an EIP IO connection with the EIP adapter
 		 * @param si the EIP session for explicit messaging
-- 
2.43.0


From 13d4df1ab94fc09927dfc7ba110fd6f249a03c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:15 +0000
Subject: [PATCH 63/74] fix: refreshing a locally created parameter
 dereferenced a null pointer

---
 src/ParameterObject.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ParameterObject.cpp b/src/ParameterObject.cpp
index 3403671..561bc80 100644
--- a/src/ParameterObject.cpp
+++ b/src/ParameterObject.cpp
@@ -56,7 +56,8 @@ namespace eipScanner {
             , _scalingDivisor(1)
             , _scalingBase(1)
             , _scalingOffset(0)
-            , _precision(0) {
+            , _precision(0)
+            , _messageRouter(std::make_shared<MessageRouter>()) {
     }
 
     ParameterObject::ParameterObject(cip::CipUint instanceId, bool fullAttributes,
-- 
2.43.0


From 44f79a7b3492c37758148e82fc0f72a554d663d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:18 +0000
Subject: [PATCH 64/74] fix: a locally created parameter reported 0 as its
 number

---
 src/ParameterObject.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ParameterObject.cpp b/src/ParameterObject.cpp
index 561bc80..ca88cdd 100644
--- a/src/ParameterObject.cpp
+++ b/src/ParameterObject.cpp
@@ -45,7 +45,7 @@ namespace eipScanner {
             , _hasFullAttributes(fullAttributes)
             , _isScalable(false)
             , _isReadOnly(false)
-            , _parameter(0)
+            , _parameter(instanceId)
             , _value(typeSize)
             , _type(CipDataTypes::ANY)
             , _name{""}
-- 
2.43.0


From 37dbb42d3816806a18bcc18b47d96d7e42f8b26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:20 +0000
Subject: [PATCH 65/74] fix: Yaskawa_EPath silently truncated ids that don't
 fit into 8 bits

---
 src/vendor/yaskawa/mp3300iec/Yaskawa_EPath.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/vendor/yaskawa/mp3300iec/Yaskawa_EPath.cpp b/src/vendor/yaskawa/mp3300iec/Yaskawa_EPath.cpp
index ea2b80f..87781bd 100644
--- a/src/vendor/yaskawa/mp3300iec/Yaskawa_EPath.cpp
+++ b/src/vendor/yaskawa/mp3300iec/Yaskawa_EPath.cpp
@@ -1,5 +1,7 @@
 #include <algorithm>
+#include <limits>
 #include <stdexcept>
+#include <string>
 #include "utils/Buffer.h"
 #include "Yaskawa_EPath.h"
 
@@ -16,6 +18,14 @@ namespace cip {
 		ATTRIBUTE_16_BITS = 0x31,
 	};
 
+	static CipUsint castTo8Bits(CipUint id) {
+		if (id > std::numeric_limits<CipUsint>::max()) {
+			throw std::runtime_error("EPATH with 8-bit segments can't hold ID " + std::to_string(id));
+		}
+
+		return static_cast<CipUsint>(id);
+	}
+
 	Yaskawa_EPath::Yaskawa_EPath()
 			: _classId{0}
 			, _objectId{0}
@@ -107,7 +117,7 @@ namespace cip {
 			EPathSegmentTypes segmentType;
 			CipUsint ignore = 0;
 			CipUsint byte;
-			CipUint word;
+			CipUint word = 0;
 			buffer >> reinterpret_cast<CipUsint&>(segmentType);
 			switch (segmentType) {
 				case EPathSegmentTypes::CLASS_8_BITS:
@@ -117,7 +127,7 @@ namespace cip {
 					break;
 				case EPathSegmentTypes::CLASS_16_BITS:
 					buffer >> ignore >> word;
-					_classId = word;
+					_classId = castTo8Bits(word);
 					_size = std::max<CipUsint>(_size, 1);
 					break;
 				case EPathSegmentTypes::INSTANCE_8_BITS:
@@ -127,7 +137,7 @@ namespace cip {
 					break;
 				case EPathSegmentTypes::INSTANCE_16_BITS:
 					buffer >> ignore >> word;
-					_objectId = word;
+					_objectId = castTo8Bits(word);
 					_size = std::max<CipUsint>(_size, 2);
 					break;
 				case EPathSegmentTypes::ATTRIBUTE_8_BITS:
@@ -137,7 +147,7 @@ namespace cip {
 					break;
 				case EPathSegmentTypes::ATTRIBUTE_16_BITS:
 					buffer >> ignore >> word;
-					_attributeId = word;
+					_attributeId = castTo8Bits(word);
 					_size = std::max<CipUsint>(_size, 3);
 					break;
 				default:
-- 
2.43.0


From c3d69650ec6ec3403ada35f1a84a41e720e568a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:28 +0000
Subject: [PATCH 66/74] fix: general statuses of refused requests were logged
 as raw characters

---
 src/cip/MessageRouterResponse.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cip/MessageRouterResponse.cpp b/src/cip/MessageRouterResponse.cpp
index 5b56cc8..1adf53c 100644
--- a/src/cip/MessageRouterResponse.cpp
+++ b/src/cip/MessageRouterResponse.cpp
@@ -81,7 +81,7 @@ namespace cip {
 	void logGeneralAndAdditionalStatus(const MessageRouterResponse &response) {
 		Logger logger(LogLevel::ERROR);
 		logger << "Message Router error=0x"
-			   << std::hex << response.getGeneralStatusCode()
+			   << std::hex << static_cast<int>(response.getGeneralStatusCode())
 			   << " additional statuses ";
 		for (auto& additionalStatus : response.getAdditionalStatus()) {
 			logger << "[0x"
-- 
2.43.0


From 2c541e44698a025007633ca60a2c23d55b08d7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:33 +0000
Subject: [PATCH 67/74] fix: refused Forward Close logged a raw character and
 no additional status

---
 src/ConnectionManager.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ConnectionManager.cpp b/src/ConnectionManager.cpp
index b5dce78..7a458f1 100644
--- a/src/ConnectionManager.cpp
+++ b/src/ConnectionManager.cpp
@@ -213,10 +213,11 @@ namespace eipScanner {
 					EPath(6, 1), request.pack());
 
 			if (messageRouterResponse.getGeneralStatusCode() != GeneralStatusCodes::SUCCESS) {
+				logGeneralAndAdditionalStatus(messageRouterResponse);
 				Logger(LogLevel::WARNING)
 					<< "Failed to close the connection in target with error=0x"
 					<< std::hex
-					<< messageRouterResponse.getGeneralStatusCode()
+					<< static_cast<int>(messageRouterResponse.getGeneralStatusCode())
 					<< ". But the connection is removed from ConnectionManager anyway";
 			}
 		} else {
-- 
2.43.0


From 0c8b09962b48bfea6df75659e460c37e16c2cfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:37 +0000
Subject: [PATCH 68/74] fix: a refused File Object synchronisation was not
 logged

---
 src/fileObject/FileObjectState.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fileObject/FileObjectState.cpp b/src/fileObject/FileObjectState.cpp
index 54dbc79..e61c843 100644
--- a/src/fileObject/FileObjectState.cpp
+++ b/src/fileObject/FileObjectState.cpp
@@ -92,6 +92,7 @@ namespace fileObject {
 			}
 
 		} else {
+			logGeneralAndAdditionalStatus(response);
 			throw std::runtime_error("Failed load the state of File Object ID=" + std::to_string(_objectId));
 		}
 	}
-- 
2.43.0


From 6caacf0d2df153ee2c63044441c81d2ae54f5cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:40 +0000
Subject: [PATCH 69/74] fix: encapsulation statuses from 0x80000000 were
 reported as negative numbers

---
 src/SessionInfo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SessionInfo.cpp b/src/SessionInfo.cpp
index 6d9fb68..149e1a5 100644
--- a/src/SessionInfo.cpp
+++ b/src/SessionInfo.cpp
@@ -69,7 +69,7 @@ namespace eipScanner {
 
 		if (recvPacket.getStatusCode() != EncapsStatusCodes::SUCCESS) {
 			throw std::runtime_error("Bad encaps packet code =" + std::to_string(
-					static_cast<int>(recvPacket.getStatusCode())));
+					static_cast<cip::CipUdint>(recvPacket.getStatusCode())));
 		}
 
 		if (_sessionHandle != 0 && recvPacket.getSessionHandle() != _sessionHandle) {
-- 
2.43.0


From fbe86415f763787a2e239efcfda14f02959e2317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:43 +0000
Subject: [PATCH 70/74] fix: periodic signals kept a TCP receive from ever
 timing out

---
 src/sockets/TCPSocket.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sockets/TCPSocket.cpp b/src/sockets/TCPSocket.cpp
index d801180..125b623 100644
--- a/src/sockets/TCPSocket.cpp
+++ b/src/sockets/TCPSocket.cpp
@@ -162,12 +162,17 @@ namespace eipScanner {
 		std::vector<uint8_t> TCPSocket::Receive(size_t size) const {
 			std::vector<uint8_t> recvBuffer(size);
 
+			auto stopTime = std::chrono::steady_clock::now() + _recvTimeout;
 			int count = 0;
 			while (size > count) {
 				auto len = recv(_sockedFd, (char*)(recvBuffer.data() + count), size - count, 0);
 				if (len < 0) {
 					// Check for EINTR, in which case, better luck next time
 					if (BaseSocket::getLastError() == EIPSCANNER_SOCKET_ERROR(EINTR)) {
+						// But signals must not keep us waiting longer and longer
+						if (_recvTimeout.count() > 0 && std::chrono::steady_clock::now() >= stopTime) {
+							throw std::system_error(EIPSCANNER_SOCKET_ERROR(EWOULDBLOCK), BaseSocket::getErrorCategory());
+						}
 						continue;
 					}
 					throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
@@ -175,6 +180,7 @@ namespace eipScanner {
 
 				Logger(LogLevel::TRACE) << "Received " << len << " bytes from TCP socket #" << _sockedFd << ".";
 				count += len;
+				stopTime = std::chrono::steady_clock::now() + _recvTimeout;
 
 				if (len == 0) {
 					break;
-- 
2.43.0


From 80ef9b2da90fed00604c6ccbbf2284233981f8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:46 +0000
Subject: [PATCH 71/74] fix: signals ended UDP transfers, so discovery lost
 devices

---
 src/sockets/UDPSocket.cpp | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/sockets/UDPSocket.cpp b/src/sockets/UDPSocket.cpp
index f19f00e..82bfa1d 100644
--- a/src/sockets/UDPSocket.cpp
+++ b/src/sockets/UDPSocket.cpp
@@ -21,6 +21,25 @@ namespace sockets {
 	using eipScanner::utils::Logger;
 	using eipScanner::utils::LogLevel;
 
+	// Receives a datagram; a signal neither ends the waiting nor keeps it going on and on
+	static size_t receiveDatagram(int fd, std::vector<uint8_t>& buffer, const std::chrono::milliseconds& timeout,
+			struct sockaddr* addr, socklen_t* addrLength) {
+		auto stopTime = std::chrono::steady_clock::now() + timeout;
+		for (;;) {
+			auto len = recvfrom(fd, (char*)buffer.data(), buffer.size(), 0, addr, addrLength);
+			if (len >= 0) {
+				return len;
+			}
+			if (BaseSocket::getLastError() != EIPSCANNER_SOCKET_ERROR(EINTR)) {
+				// Logging in between could change the error code
+				throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
+			}
+			if (timeout.count() > 0 && std::chrono::steady_clock::now() >= stopTime) {
+				throw std::system_error(EIPSCANNER_SOCKET_ERROR(EWOULDBLOCK), BaseSocket::getErrorCategory());
+			}
+		}
+	}
+
 	UDPSocket::UDPSocket(std::string host, int port)
 		: UDPSocket(EndPoint(host, port)){
 
@@ -61,6 +80,10 @@ namespace sockets {
 		auto addr = _remoteEndPoint.getAddr();
 		auto count = sendto(_sockedFd, (char*)data.data(), data.size(), flags,
 				(struct sockaddr *)&addr, sizeof(addr));
+		while (count < 0 && BaseSocket::getLastError() == EIPSCANNER_SOCKET_ERROR(EINTR)) {
+			count = sendto(_sockedFd, (char*)data.data(), data.size(), flags,
+					(struct sockaddr *)&addr, sizeof(addr));
+		}
 		if (count < 0 || static_cast<size_t>(count) < data.size()) {
 			throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
 		}
@@ -69,11 +92,7 @@ namespace sockets {
 	std::vector<uint8_t> UDPSocket::Receive(size_t size) const {
 		std::vector<uint8_t> recvBuffer(size);
 
-		auto len = recvfrom(_sockedFd, (char*)recvBuffer.data(), recvBuffer.size(), 0, NULL, NULL);
-		if (len < 0) {
-			// Logging in between could change the error code
-			throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
-		}
+		auto len = receiveDatagram(_sockedFd, recvBuffer, _recvTimeout, NULL, NULL);
 		Logger(LogLevel::TRACE) << "Received " << len << " bytes from UDP socket #" << _sockedFd << ".";
 
 		recvBuffer.resize(len);
@@ -84,10 +103,7 @@ namespace sockets {
 		std::vector<uint8_t> recvBuffer(size);
 		struct sockaddr_in addr;
 		socklen_t addrFromLength = sizeof(addr);
-		auto len = recvfrom(_sockedFd, (char*)recvBuffer.data(), recvBuffer.size(), 0, (struct sockaddr*)&addr, &addrFromLength);
-		if (len < 0) {
-			throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
-		}
+		auto len = receiveDatagram(_sockedFd, recvBuffer, _recvTimeout, (struct sockaddr*)&addr, &addrFromLength);
 		Logger(LogLevel::TRACE) << "Received " << len << " bytes from UDP socket #" << _sockedFd << ".";
 
 		endPoint = EndPoint(addr);
-- 
2.43.0


From 62e69da12c3bfe1edc975db846b73ac87076da80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:24 +0000
Subject: [PATCH 72/74] fix: a path without components was encoded as a class
 segment

---
 src/cip/EPath.cpp                              | 4 ++++
 src/vendor/yaskawa/mp3300iec/Yaskawa_EPath.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/cip/EPath.cpp b/src/cip/EPath.cpp
index 972e5e6..b6cdd6d 100644
--- a/src/cip/EPath.cpp
+++ b/src/cip/EPath.cpp
@@ -51,6 +51,10 @@ namespace cip {
 	}
 
 	std::vector<uint8_t> EPath::packPaddedPath(bool use_8_bit_path_segments) const {
+		if (_size == 0) {
+			return {};
+		}
+
         if (use_8_bit_path_segments)
         {
             const CipUint maxId = 0xFF;
diff --git a/src/vendor/yaskawa/mp3300iec/Yaskawa_EPath.cpp b/src/vendor/yaskawa/mp3300iec/Yaskawa_EPath.cpp
index 87781bd..59d73cb 100644
--- a/src/vendor/yaskawa/mp3300iec/Yaskawa_EPath.cpp
+++ b/src/vendor/yaskawa/mp3300iec/Yaskawa_EPath.cpp
@@ -57,6 +57,10 @@ namespace cip {
 	}
 
 	std::vector<uint8_t> Yaskawa_EPath::packPaddedPath() const {
+		if (_size == 0) {
+			return {};
+		}
+
 		Buffer buffer(_size*2);
 
 		auto classSegment = static_cast<CipUsint>(EPathSegmentTypes::CLASS_8_BITS);
-- 
2.43.0


From bfd9914466c04c6cfec033d283dea2acce3b6dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:27 +0000
Subject: [PATCH 73/74] fix: timeouts too long for a point in time ended at
 once

---
 src/sockets/BaseSocket.cpp | 11 +++++++----
 src/sockets/TCPSocket.cpp  | 13 +++++++------
 src/sockets/UDPSocket.cpp  |  5 +++--
 3 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/sockets/BaseSocket.cpp b/src/sockets/BaseSocket.cpp
index 77c4050..6135d5c 100644
--- a/src/sockets/BaseSocket.cpp
+++ b/src/sockets/BaseSocket.cpp
@@ -134,10 +134,10 @@ namespace sockets {
 #endif
 
 		auto startTime = std::chrono::steady_clock::now();
-		auto stopTime = startTime + timeout;
+		auto restOfTime = timeout;
 		int ready;
 		do {
-			timeval tv = makePortableInterval(std::chrono::duration_cast<std::chrono::milliseconds>(stopTime-startTime));
+			timeval tv = makePortableInterval(restOfTime);
 
 			fd_set recvSet;
 			FD_ZERO(&recvSet);
@@ -150,7 +150,8 @@ namespace sockets {
 				if (BaseSocket::getLastError() == EIPSCANNER_SOCKET_ERROR(EINTR)) {
 					// Interrupted by a signal, wait for the rest of the time
 					ready = 1;
-					startTime = std::chrono::steady_clock::now();
+					restOfTime = timeout - std::chrono::duration_cast<std::chrono::milliseconds>(
+							std::chrono::steady_clock::now() - startTime);
 					continue;
 				}
 				throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
@@ -163,7 +164,9 @@ namespace sockets {
 				}
 			}
 
-			startTime = std::chrono::steady_clock::now();
+			// A point in time to stop at could be too far away to be represented
+			restOfTime = timeout - std::chrono::duration_cast<std::chrono::milliseconds>(
+					std::chrono::steady_clock::now() - startTime);
 		} while(ready > 0);
 	}
 
diff --git a/src/sockets/TCPSocket.cpp b/src/sockets/TCPSocket.cpp
index 125b623..3a008c3 100644
--- a/src/sockets/TCPSocket.cpp
+++ b/src/sockets/TCPSocket.cpp
@@ -65,7 +65,7 @@ namespace eipScanner {
 				if (res < 0) {
 					if (BaseSocket::getLastError() == EIPSCANNER_SOCKET_ERROR(EINPROGRESS)) {
 						auto restOfTime = connTimeout;
-						auto stopTime = std::chrono::steady_clock::now() + connTimeout;
+						auto startTime = std::chrono::steady_clock::now();
 #if defined(__unix__) || defined(__APPLE__)
 						if (_sockedFd >= FD_SETSIZE) {
 							// fd_set can't hold this descriptor
@@ -83,8 +83,8 @@ namespace eipScanner {
 							if (res < 0) {
 								if (BaseSocket::getLastError() == EIPSCANNER_SOCKET_ERROR(EINTR)) {
 									// Wait for the rest of the time, rounded up
-									restOfTime = std::chrono::duration_cast<std::chrono::milliseconds>(
-											stopTime - std::chrono::steady_clock::now()) + std::chrono::milliseconds(1);
+									restOfTime = connTimeout - std::chrono::duration_cast<std::chrono::milliseconds>(
+											std::chrono::steady_clock::now() - startTime);
 									continue;
 								}
 								throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
@@ -162,7 +162,7 @@ namespace eipScanner {
 		std::vector<uint8_t> TCPSocket::Receive(size_t size) const {
 			std::vector<uint8_t> recvBuffer(size);
 
-			auto stopTime = std::chrono::steady_clock::now() + _recvTimeout;
+			auto startTime = std::chrono::steady_clock::now();
 			int count = 0;
 			while (size > count) {
 				auto len = recv(_sockedFd, (char*)(recvBuffer.data() + count), size - count, 0);
@@ -170,7 +170,8 @@ namespace eipScanner {
 					// Check for EINTR, in which case, better luck next time
 					if (BaseSocket::getLastError() == EIPSCANNER_SOCKET_ERROR(EINTR)) {
 						// But signals must not keep us waiting longer and longer
-						if (_recvTimeout.count() > 0 && std::chrono::steady_clock::now() >= stopTime) {
+						if (_recvTimeout.count() > 0 && std::chrono::duration_cast<std::chrono::milliseconds>(
+								std::chrono::steady_clock::now() - startTime) >= _recvTimeout) {
 							throw std::system_error(EIPSCANNER_SOCKET_ERROR(EWOULDBLOCK), BaseSocket::getErrorCategory());
 						}
 						continue;
@@ -180,7 +181,7 @@ namespace eipScanner {
 
 				Logger(LogLevel::TRACE) << "Received " << len << " bytes from TCP socket #" << _sockedFd << ".";
 				count += len;
-				stopTime = std::chrono::steady_clock::now() + _recvTimeout;
+				startTime = std::chrono::steady_clock::now();
 
 				if (len == 0) {
 					break;
diff --git a/src/sockets/UDPSocket.cpp b/src/sockets/UDPSocket.cpp
index 82bfa1d..b5a3a87 100644
--- a/src/sockets/UDPSocket.cpp
+++ b/src/sockets/UDPSocket.cpp
@@ -24,7 +24,7 @@ namespace sockets {
 	// Receives a datagram; a signal neither ends the waiting nor keeps it going on and on
 	static size_t receiveDatagram(int fd, std::vector<uint8_t>& buffer, const std::chrono::milliseconds& timeout,
 			struct sockaddr* addr, socklen_t* addrLength) {
-		auto stopTime = std::chrono::steady_clock::now() + timeout;
+		auto startTime = std::chrono::steady_clock::now();
 		for (;;) {
 			auto len = recvfrom(fd, (char*)buffer.data(), buffer.size(), 0, addr, addrLength);
 			if (len >= 0) {
@@ -34,7 +34,8 @@ namespace sockets {
 				// Logging in between could change the error code
 				throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
 			}
-			if (timeout.count() > 0 && std::chrono::steady_clock::now() >= stopTime) {
+			if (timeout.count() > 0 && std::chrono::duration_cast<std::chrono::milliseconds>(
+					std::chrono::steady_clock::now() - startTime) >= timeout) {
 				throw std::system_error(EIPSCANNER_SOCKET_ERROR(EWOULDBLOCK), BaseSocket::getErrorCategory());
 			}
 		}
-- 
2.43.0


From 39e9c169121111fc34cd97d7fd4c5331e349b5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:13 +0000
Subject: [PATCH 74/74] fix: serial numbers and ids of open connections were
 given out again

---
 src/ConnectionManager.cpp | 17 +++++++++++++++--
 src/ConnectionManager.h   |  1 +
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/ConnectionManager.cpp b/src/ConnectionManager.cpp
index 7a458f1..55b81c4 100644
--- a/src/ConnectionManager.cpp
+++ b/src/ConnectionManager.cpp
@@ -51,9 +51,14 @@ namespace eipScanner {
 
 	IOConnection::WPtr
 	ConnectionManager::forwardOpen(const SessionInfoIf::SPtr& si, ConnectionParameters connectionParameters, bool isLarge) {
-		static int serialNumberCount = 0;
+		static cip::CipUint serialNumberCount = 0;
 		connectionParameters.connectionSerialNumber = ++serialNumberCount;
 
+		// The counter starts over while a connection it numbered may be still open
+		for (size_t i = 0; i < _connectionMap.size() && hasSerialNumber(connectionParameters.connectionSerialNumber); ++i) {
+			connectionParameters.connectionSerialNumber = ++serialNumberCount;
+		}
+
 		const cip::CipUsint maxTimeoutMultiplier = 7;
 		if (connectionParameters.connectionTimeoutMultiplier > maxTimeoutMultiplier) {
 			throw std::runtime_error("The connection timeout multiplier is reserved");
@@ -75,7 +80,9 @@ namespace eipScanner {
 
 		if (t2oNCP.getConnectionType() == NetworkConnectionParametersBuilder::P2P) {
 			static cip::CipUdint idCount = _incarnationId << 16;
-			connectionParameters.t2oNetworkConnectionId = ++idCount;
+			do {
+				connectionParameters.t2oNetworkConnectionId = ++idCount;
+			} while (_connectionMap.count(connectionParameters.t2oNetworkConnectionId) > 0);
 		}
 
 		auto o2tSize = o2tNCP.getConnectionSize();
@@ -322,6 +329,12 @@ namespace eipScanner {
 		return socket->second;
 	}
 
+	bool ConnectionManager::hasSerialNumber(cip::CipUint serialNumber) const {
+		return std::any_of(_connectionMap.begin(), _connectionMap.end(), [serialNumber](auto& entry) {
+			return entry.second->_serialNumber == serialNumber;
+		});
+	}
+
 	bool ConnectionManager::hasOpenConnections() const {
 		return !_connectionMap.empty();
 	}
diff --git a/src/ConnectionManager.h b/src/ConnectionManager.h
index dc65bd5..0d6bd35 100644
--- a/src/ConnectionManager.h
+++ b/src/ConnectionManager.h
@@ -84,6 +84,7 @@ namespace eipScanner {
 		ConnectionMap _connectionMap;
 		std::map<sockets::EndPoint, std::shared_ptr<sockets::UDPBoundSocket>> _socketMap;
 
+		bool hasSerialNumber(cip::CipUint serialNumber) const;
 		ConnectionMap::iterator findConnection(const IOConnection::SPtr& ioConnection);
 		sockets::UDPBoundSocket::SPtr  findOrCreateSocket(const sockets::EndPoint& endPoint);
 		cip::CipUint _incarnationId;
-- 
2.43.0

