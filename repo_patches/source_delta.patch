From 6b66c809c31e85863623fd3155b5bf624177830f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:52 +0000
Subject: [PATCH 01/25] fix: a thread count that is not a number satisfies
 nothing instead of throwing

---
 src/worker.cpp | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/worker.cpp b/src/worker.cpp
index 1935cbb..908c08d 100644
--- a/src/worker.cpp
+++ b/src/worker.cpp
@@ -1,6 +1,8 @@
 #include "worker.h"
 #include "helpers/string_to_hex.h"
 
+#include <stdexcept>
+
 bool header_matcher::match(const std::string &value)
 {
 	return value == my_value_;
@@ -57,6 +59,23 @@ bool multiple_string_matcher::match(const std::string &value)
 	return false;
 }
 
+/**
+ * Convert a textual count to a number.
+ * @param text The text to be converted.
+ * @param count The result of the conversion.
+ * @return @a false if the text is not a non-negative number that fits into @a std::size_t, @a true otherwise.
+ */
+static bool parse_count(const std::string &text, std::size_t &count)
+{
+	try {
+		std::size_t length = 0;
+		count = std::stoul(text, &length);
+		return length == text.size() && text.find('-') == std::string::npos;
+	} catch (const std::logic_error &) {
+		return false;
+	}
+}
+
 /**
  * Checks if a given value is less than or equal to a preset number.
  */
@@ -64,15 +83,19 @@ class count_matcher : public header_matcher
 {
 private:
 	/** Preset number to be base for comparison. */
-	std::size_t my_count_;
+	std::size_t my_count_ = 0;
+
+	/** False if the preset value is not a number (nothing matches then). */
+	bool valid_;
 
 public:
 	/**
 	 * Constructor.
-	 * @param my_value Base value for comparison. Will be converted to @a std::size_t type using std::stoul.
+	 * @param my_value Base value for comparison. Will be converted to @a std::size_t type.
 	 */
-	count_matcher(std::string my_value) : header_matcher(my_value), my_count_(std::stoul(my_value))
+	count_matcher(std::string my_value) : header_matcher(my_value)
 	{
+		valid_ = parse_count(my_value, my_count_);
 	}
 
 	/** Destructor. */
@@ -80,8 +103,7 @@ public:
 
 	/**
 	 * Check if given value is >= to inner preset value.
-	 * @param value Value to be checked. Before comparison, the value is converted to @a std::size_t type using
-	 * std::stoul.
+	 * @param value Value to be checked. Before comparison, the value is converted to @a std::size_t type.
 	 * @return @a true if value matches, @a false otherwise.
 	 */
 	bool match(const std::string &value) override;
@@ -89,7 +111,8 @@ public:
 
 bool count_matcher::match(const std::string &value)
 {
-	return my_count_ >= std::stoul(value);
+	std::size_t count = 0;
+	return valid_ && parse_count(value, count) && my_count_ >= count;
 }
 
 worker::worker(
-- 
2.43.0


From 091953c5b22bbdbb4dbf91b421ad7f230d947fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:52 +0000
Subject: [PATCH 02/25] fix: bytes above 0x7f take two hexadecimal digits in
 worker descriptions

---
 src/helpers/string_to_hex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helpers/string_to_hex.cpp b/src/helpers/string_to_hex.cpp
index 707c798..ea7b258 100644
--- a/src/helpers/string_to_hex.cpp
+++ b/src/helpers/string_to_hex.cpp
@@ -5,7 +5,7 @@ std::string helpers::string_to_hex(const std::string &string)
 	std::stringstream ss;
 	ss << std::hex << std::setfill('0') << std::nouppercase;
 	for (auto &c : string) {
-		ss << std::setw(2) << static_cast<unsigned int>(c);
+		ss << std::setw(2) << static_cast<unsigned int>(static_cast<unsigned char>(c));
 	}
 	return ss.str();
 }
-- 
2.43.0


From 0cde00c572b7d2827943f739a947a635e75588e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:53 +0000
Subject: [PATCH 03/25] fix: a new worker starts with full liveness

---
 src/handlers/broker_handler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/handlers/broker_handler.cpp b/src/handlers/broker_handler.cpp
index f84f791..e65b5af 100644
--- a/src/handlers/broker_handler.cpp
+++ b/src/handlers/broker_handler.cpp
@@ -221,6 +221,7 @@ void broker_handler::process_worker_init(
 
 	// Create a new worker with the basic information
 	auto new_worker = std::make_shared<worker>(identity, hwgroup, headers);
+	new_worker->liveness = config_->get_max_worker_liveness();
 	std::shared_ptr<request> current_request = nullptr;
 
 	// Load additional information
-- 
2.43.0


From 9a87dd5d0d2163335f83979e0aa7fbf22a9f4b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:53 +0000
Subject: [PATCH 04/25] fix: forget the timer of an expired worker

---
 src/handlers/broker_handler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/handlers/broker_handler.cpp b/src/handlers/broker_handler.cpp
index e65b5af..e33eaa0 100644
--- a/src/handlers/broker_handler.cpp
+++ b/src/handlers/broker_handler.cpp
@@ -410,6 +410,7 @@ void broker_handler::process_timer(const message_container &message, const handl
 		logger_->info("Worker {} expired", worker->get_description());
 
 		workers_->remove_worker(worker);
+		worker_timers_.erase(worker);
 		if (queue_->get_current_request(worker) != nullptr) {
 			queue_->get_current_request(worker)->failure_count += 1;
 		}
-- 
2.43.0


From 944f3963671e364eadc03005b5998f378b0b4b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:53 +0000
Subject: [PATCH 05/25] fix: ignore a 'done' message from a worker that has no
 job

---
 src/handlers/broker_handler.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/handlers/broker_handler.cpp b/src/handlers/broker_handler.cpp
index e33eaa0..7df5527 100644
--- a/src/handlers/broker_handler.cpp
+++ b/src/handlers/broker_handler.cpp
@@ -281,6 +281,11 @@ void broker_handler::process_worker_done(
 
 	request_ptr current = queue_->get_current_request(worker);
 
+	if (current == nullptr) {
+		logger_->error("Got 'done' message from worker {} which has no job", worker->get_description());
+		return;
+	}
+
 	if (message.at(1) != current->data.get_job_id()) {
 		logger_->error("Got 'done' message from worker {} with mismatched job id - {} (message) vs. {} (worker)",
 			worker->get_description(),
-- 
2.43.0


From 86ae9139fc6411fa44afaea28932c47052526a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:53 +0000
Subject: [PATCH 06/25] fix: ignore an 'eval' message without job
 identification or header terminator

---
 src/handlers/broker_handler.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/handlers/broker_handler.cpp b/src/handlers/broker_handler.cpp
index 7df5527..aa6449e 100644
--- a/src/handlers/broker_handler.cpp
+++ b/src/handlers/broker_handler.cpp
@@ -92,6 +92,12 @@ void broker_handler::process_client_eval(
 	// Then let client know that we are alive and well
 	respond(message_container(broker_connect::KEY_CLIENTS, identity, {"ack"}));
 
+	// There must be a job identification and a frame that terminates the headers
+	if (message.size() < 3) {
+		logger_->warn("Eval command with not enough arguments. Skipped.");
+		return;
+	}
+
 	// Get job identification and parse headers
 	std::string job_id = message.at(1);
 	request::headers_t headers;
-- 
2.43.0


From 200424d72889f95a2cf09bb04b981189e8ff4f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:53 +0000
Subject: [PATCH 07/25] fix: ignore messages without content

---
 src/handlers/broker_handler.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/handlers/broker_handler.cpp b/src/handlers/broker_handler.cpp
index aa6449e..688f178 100644
--- a/src/handlers/broker_handler.cpp
+++ b/src/handlers/broker_handler.cpp
@@ -63,6 +63,11 @@ broker_handler::broker_handler(std::shared_ptr<const broker_config> config,
 
 void broker_handler::on_request(const message_container &message, const response_cb &respond)
 {
+	if (message.data.empty()) {
+		logger_->warn("Received a message without any content. Skipped.");
+		return;
+	}
+
 	if (message.key == broker_connect::KEY_WORKERS) {
 		auto worker = workers_->find_worker_by_identity(message.identity);
 
-- 
2.43.0


From 59b979e7dc77af480e58a232c95d7c4e9135298d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:53 +0000
Subject: [PATCH 08/25] fix: do not forward progress messages without content

---
 src/handlers/broker_handler.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/handlers/broker_handler.cpp b/src/handlers/broker_handler.cpp
index 688f178..72886db 100644
--- a/src/handlers/broker_handler.cpp
+++ b/src/handlers/broker_handler.cpp
@@ -390,6 +390,11 @@ void broker_handler::process_worker_progress(
 	// first let us know that message arrived (logging moved from main loop)
 	// logger_->debug() << "Received message 'progress' from workers";
 
+	if (message.size() < 2) {
+		logger_->warn("Progress command without content. Nothing to forward.");
+		return;
+	}
+
 	std::vector<std::string> monitor_message;
 	monitor_message.resize(message.size() - 1);
 	std::copy(message.begin() + 1, message.end(), monitor_message.begin());
-- 
2.43.0


From 11b165dd0cce6ccee023cdd93f22cb14d32c2867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:53 +0000
Subject: [PATCH 09/25] fix: registering a busy worker does not assign it
 anything (single queue)

---
 src/queuing/single_queue_manager.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/queuing/single_queue_manager.h b/src/queuing/single_queue_manager.h
index 1d4d87c..a3f71d7 100644
--- a/src/queuing/single_queue_manager.h
+++ b/src/queuing/single_queue_manager.h
@@ -81,7 +81,7 @@ public:
         workers_.push_back(worker);
 
         if (current_request != nullptr) {
-            return current_request;
+            return nullptr;
         }
 
         return assign_request(worker);
-- 
2.43.0


From c2378d1a1866a0aac4e1463a484afbcf0f329fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:53 +0000
Subject: [PATCH 10/25] fix: keep the arrival order of jobs queued within one
 clock tick or across wall clock changes

---
 src/queuing/single_queue_manager.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/queuing/single_queue_manager.h b/src/queuing/single_queue_manager.h
index a3f71d7..9b0b41f 100644
--- a/src/queuing/single_queue_manager.h
+++ b/src/queuing/single_queue_manager.h
@@ -90,7 +90,7 @@ public:
     request_ptr assign_request(worker_ptr worker) override
     {
         worker_jobs_[worker] = nullptr;
-        std::sort(jobs_.begin(), jobs_.end(), [this, worker] (const request_entry &a, const request_entry &b) {
+        std::stable_sort(jobs_.begin(), jobs_.end(), [this, worker] (const request_entry &a, const request_entry &b) {
             return comparator_->compare(a, b, worker);
         });
 
@@ -152,7 +152,7 @@ public:
             jobs_.push_back(request_entry{
                 .request = request,
                 .arrived_at = std::chrono::duration_cast<std::chrono::milliseconds>(
-                    std::chrono::system_clock::now().time_since_epoch()
+                    std::chrono::steady_clock::now().time_since_epoch()
                 ),
             });
         }
-- 
2.43.0


From f97c552c7f88972512e124ca0a2007bcf144abff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:53 +0000
Subject: [PATCH 11/25] fix: initialize the notifier port

---
 src/config/notifier_config.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config/notifier_config.h b/src/config/notifier_config.h
index 48b906b..ef3af52 100644
--- a/src/config/notifier_config.h
+++ b/src/config/notifier_config.h
@@ -17,7 +17,7 @@ public:
 	/**
 	 * Port on which frontend runs.
 	 */
-	std::uint16_t port;
+	std::uint16_t port = 0;
 
 	/**
 	 * Username which is used in HTTP authentication.
-- 
2.43.0


From ca81c827061788113cfd98418e1533f31935e980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:53 +0000
Subject: [PATCH 12/25] fix: report the number of jobs in progress also before
 the first timer tick

---
 src/handlers/broker_handler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/handlers/broker_handler.cpp b/src/handlers/broker_handler.cpp
index 72886db..dfb0e96 100644
--- a/src/handlers/broker_handler.cpp
+++ b/src/handlers/broker_handler.cpp
@@ -16,6 +16,7 @@ broker_handler::broker_handler(std::shared_ptr<const broker_config> config,
 
 	runtime_stats_.emplace(STATS_QUEUED_JOBS, 0);
 	runtime_stats_.emplace(STATS_EVALUATED_JOBS, 0);
+	runtime_stats_.emplace(STATS_JOBS_IN_PROGRESS, 0);
 	runtime_stats_.emplace(STATS_FAILED_JOBS, 0);
 	runtime_stats_.emplace(STATS_WORKER_COUNT, 0);
 	runtime_stats_.emplace(STATS_IDLE_WORKER_COUNT, 0);
-- 
2.43.0


From a64b4851169547af18a89246b84ea1dae90057f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:53 +0000
Subject: [PATCH 13/25] fix: reject a ping interval that does not fit instead
 of making it negative

---
 src/config/broker_config.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/config/broker_config.cpp b/src/config/broker_config.cpp
index 282ba43..26e93f6 100644
--- a/src/config/broker_config.cpp
+++ b/src/config/broker_config.cpp
@@ -37,7 +37,11 @@ broker_config::broker_config(const YAML::Node &config)
 				max_request_failures_ = config["workers"]["max_request_failures"].as<std::size_t>();
 			} // no throw... can be omitted
 			if (config["workers"]["ping_interval"] && config["workers"]["ping_interval"].IsScalar()) {
-				worker_ping_interval_ = std::chrono::milliseconds(config["workers"]["ping_interval"].as<std::size_t>());
+				auto ping_interval = config["workers"]["ping_interval"].as<std::size_t>();
+				if (ping_interval > static_cast<std::size_t>(std::chrono::milliseconds::max().count())) {
+					throw config_error("The ping interval is too long");
+				}
+				worker_ping_interval_ = std::chrono::milliseconds(ping_interval);
 			} // no throw... can be omitted
 		}
 
-- 
2.43.0


From 144d44a1a4ea83df3b0e08fc2897381a07ea291a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:53 +0000
Subject: [PATCH 14/25] fix: a request that could not be made because curl did
 not initialize is a failure

---
 src/helpers/curl.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/helpers/curl.cpp b/src/helpers/curl.cpp
index f223391..48edb5b 100644
--- a/src/helpers/curl.cpp
+++ b/src/helpers/curl.cpp
@@ -52,7 +52,9 @@ std::string helpers::curl_get(const std::string &url,
 
 	// get curl handle
 	std::unique_ptr<CURL, decltype(&curl_easy_cleanup)> curl = {curl_easy_init(), curl_easy_cleanup};
-	if (curl.get()) {
+	if (!curl) {
+		throw curl_exception("GET request failed to " + url_query + ". Error: cannot initialize curl");
+	} else {
 		// destination address
 		curl_easy_setopt(curl.get(), CURLOPT_URL, url_query.c_str());
 
@@ -110,7 +112,9 @@ std::string helpers::curl_post(const std::string &url,
 
 	// get curl handle
 	std::unique_ptr<CURL, decltype(&curl_easy_cleanup)> curl = {curl_easy_init(), curl_easy_cleanup};
-	if (curl.get()) {
+	if (!curl) {
+		throw curl_exception("POST request failed to " + url_query + ". Error: cannot initialize curl");
+	} else {
 		// destination address
 		curl_easy_setopt(curl.get(), CURLOPT_URL, url.c_str());
 
-- 
2.43.0


From 9332c03e66b23ae845ffa183aa17103c55e588ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:53 +0000
Subject: [PATCH 15/25] fix: percent-encode the parameters of http requests

---
 src/helpers/curl.cpp | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/helpers/curl.cpp b/src/helpers/curl.cpp
index 48edb5b..f9d54b2 100644
--- a/src/helpers/curl.cpp
+++ b/src/helpers/curl.cpp
@@ -7,6 +7,30 @@
 #endif
 
 
+/**
+ * Percent-encode a name or a value of a http parameter.
+ * @param text text to be encoded
+ * @return encoded text
+ */
+static std::string encode_param(const std::string &text)
+{
+	static const char digits[] = "0123456789ABCDEF";
+	std::string result;
+
+	for (unsigned char c : text) {
+		if ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '-' || c == '.' ||
+			c == '_' || c == '~') {
+			result += static_cast<char>(c);
+		} else {
+			result += '%';
+			result += digits[c >> 4];
+			result += digits[c & 0xf];
+		}
+	}
+
+	return result;
+}
+
 std::string helpers::get_http_query(const curl_params &params)
 {
 	std::string result;
@@ -16,7 +40,7 @@ std::string helpers::get_http_query(const curl_params &params)
 			result += "&";
 		}
 
-		result += par.first + "=" + par.second;
+		result += encode_param(par.first) + "=" + encode_param(par.second);
 	}
 
 	return result;
-- 
2.43.0


From 0cb31c9e0baf82c97eb0b724f9a729afd426d682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:53 +0000
Subject: [PATCH 16/25] fix: terminate messages without data frames so that
 nothing gets glued to them

---
 src/reactor/reactor.cpp               | 4 ++--
 src/reactor/router_socket_wrapper.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/reactor/reactor.cpp b/src/reactor/reactor.cpp
index 95b8dd1..c03d768 100644
--- a/src/reactor/reactor.cpp
+++ b/src/reactor/reactor.cpp
@@ -170,7 +170,7 @@ void asynchronous_handler_wrapper::operator()(const message_container &message)
 {
 	reactor_socket_.send(unique_id_.data(), unique_id_.size(), ZMQ_SNDMORE);
 	reactor_socket_.send(message.key.data(), message.key.size(), ZMQ_SNDMORE);
-	reactor_socket_.send(message.identity.data(), message.identity.size(), ZMQ_SNDMORE);
+	reactor_socket_.send(message.identity.data(), message.identity.size(), message.data.empty() ? 0 : ZMQ_SNDMORE);
 
 	for (auto it = std::begin(message.data); it != std::end(message.data); ++it) {
 		reactor_socket_.send(it->c_str(), it->size(), std::next(it) != std::end(message.data) ? ZMQ_SNDMORE : 0);
@@ -214,7 +214,7 @@ void asynchronous_handler_wrapper::handler_thread()
 void asynchronous_handler_wrapper::send_response(zmq::socket_t &socket, const message_container &message)
 {
 	socket.send(message.key.data(), message.key.size(), ZMQ_SNDMORE);
-	socket.send(message.identity.data(), message.identity.size(), ZMQ_SNDMORE);
+	socket.send(message.identity.data(), message.identity.size(), message.data.empty() ? 0 : ZMQ_SNDMORE);
 
 	for (auto it = std::begin(message.data); it != std::end(message.data); ++it) {
 		socket.send(it->c_str(), it->size(), std::next(it) != std::end(message.data) ? ZMQ_SNDMORE : 0);
diff --git a/src/reactor/router_socket_wrapper.cpp b/src/reactor/router_socket_wrapper.cpp
index 91c4d3c..00e143c 100644
--- a/src/reactor/router_socket_wrapper.cpp
+++ b/src/reactor/router_socket_wrapper.cpp
@@ -10,7 +10,7 @@ bool router_socket_wrapper::send_message(const message_container &source)
 {
 
 	try {
-		socket_.send(source.identity.c_str(), source.identity.size(), ZMQ_SNDMORE);
+		socket_.send(source.identity.c_str(), source.identity.size(), source.data.empty() ? 0 : ZMQ_SNDMORE);
 	} catch (const zmq::error_t &) {
 		return false;
 	}
-- 
2.43.0


From 0389f334c1a30118d14c1044e3e5e6fb908a16e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:53 +0000
Subject: [PATCH 17/25] fix: do not dispatch messages whose reception failed

---
 src/reactor/reactor.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/reactor/reactor.cpp b/src/reactor/reactor.cpp
index c03d768..6bbc604 100644
--- a/src/reactor/reactor.cpp
+++ b/src/reactor/reactor.cpp
@@ -89,10 +89,11 @@ void reactor::start_loop()
 				if (i < pollitem_names.size()) {
 					// message came from a registered socket, fill in its key
 					received_msg.key = pollitem_names.at(i);
-					sockets_.at(received_msg.key)->receive_message(received_msg);
 
 					// messages from sockets must go through a handler
-					process_message(received_msg);
+					if (sockets_.at(received_msg.key)->receive_message(received_msg)) {
+						process_message(received_msg);
+					}
 				} else {
 					// message from the asynchronous handler socket
 					zmq::message_t zmessage;
-- 
2.43.0


From 08ec299ba6b6172b8d08512ef5e4148694ae5f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:53 +0000
Subject: [PATCH 18/25] fix: elapsed time reported to timers includes handler
 time, survives clock changes and is not truncated

---
 src/reactor/reactor.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/reactor/reactor.cpp b/src/reactor/reactor.cpp
index 6bbc604..ee9b4c5 100644
--- a/src/reactor/reactor.cpp
+++ b/src/reactor/reactor.cpp
@@ -73,13 +73,12 @@ void reactor::start_loop()
 
 	termination_flag_.store(false);
 
+	// The time up to which the elapsed time was already reported
+	auto reported_time = std::chrono::steady_clock::now();
+
 	// Enter the poll loop
 	while (!termination_flag_.load()) {
-		auto time_before_poll = std::chrono::system_clock::now();
 		zmq::poll(pollitems, std::chrono::milliseconds(100));
-		auto time_after_poll = std::chrono::system_clock::now();
-
-		auto elapsed_time = std::chrono::duration_cast<std::chrono::milliseconds>(time_after_poll - time_before_poll);
 
 		std::size_t i = 0;
 		for (auto item : pollitems) {
@@ -120,6 +119,11 @@ void reactor::start_loop()
 			++i;
 		}
 
+		// Whatever does not make a whole millisecond is left for the next report
+		auto elapsed_time =
+			std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - reported_time);
+		reported_time += elapsed_time;
+
 		message_container timer_msg;
 		timer_msg.key = KEY_TIMER;
 		timer_msg.data.push_back(std::to_string(elapsed_time.count()));
-- 
2.43.0


From c5cb261ab997fb97675461121628f8079d0020dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:11 +0000
Subject: [PATCH 19/25] fix: a worker that reports an internal error is given
 the next waiting job

---
 src/handlers/broker_handler.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/handlers/broker_handler.cpp b/src/handlers/broker_handler.cpp
index dfb0e96..6d9ec8f 100644
--- a/src/handlers/broker_handler.cpp
+++ b/src/handlers/broker_handler.cpp
@@ -329,16 +329,17 @@ void broker_handler::process_worker_done(
 		auto failed_request = queue_->worker_cancelled(worker);
 		failed_request->failure_count += 1;
 
+		// The worker is free now - waiting jobs go before the one that failed
+		auto new_request = queue_->assign_request(worker);
+		if (new_request) {
+			send_request(worker, new_request, respond);
+		}
+
 		if (!failed_request->data.is_complete()) {
 			status_notifier.rejected_job(
 				failed_request->data.get_job_id(), "Job failed with '" + message.at(3) + "' and cannot be reassigned");
 		} else if (check_failure_count(failed_request, status_notifier, respond, message.at(3))) {
 			reassign_request(failed_request, respond);
-		} else {
-			auto new_request = queue_->assign_request(worker);
-			if (new_request) {
-				send_request(worker, new_request, respond);
-			}
 		}
 
 		runtime_stats_[STATS_FAILED_JOBS] += 1;
-- 
2.43.0


From 4deb00b122792c27b3818ef10cd86508cfdde855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:27 +0000
Subject: [PATCH 20/25] fix: do not reassign jobs of an expired worker to
 another one that expired at the same time

---
 src/handlers/broker_handler.cpp | 23 ++++++++++++++++++++---
 src/handlers/broker_handler.h   | 18 ++++++++++++++++++
 2 files changed, 38 insertions(+), 3 deletions(-)

diff --git a/src/handlers/broker_handler.cpp b/src/handlers/broker_handler.cpp
index 6d9ec8f..68d8fb1 100644
--- a/src/handlers/broker_handler.cpp
+++ b/src/handlers/broker_handler.cpp
@@ -426,9 +426,9 @@ void broker_handler::process_timer(const message_container &message, const handl
 		}
 	}
 
-	reactor_status_notifier status_notifier(respond, broker_connect::KEY_STATUS_NOTIFIER);
-	const static std::string failure_msg = "Worker timed out and its job cannot be reassigned";
+	std::list<removed_worker> removed;
 
+	// Remove all the expired workers before reassigning anything so that no job is given to one of them
 	for (const auto &worker : to_remove) {
 		logger_->info("Worker {} expired", worker->get_description());
 
@@ -438,7 +438,21 @@ void broker_handler::process_timer(const message_container &message, const handl
 			queue_->get_current_request(worker)->failure_count += 1;
 		}
 
-		auto requests = queue_->worker_terminated(worker);
+		removed.emplace_back(worker, queue_->worker_terminated(worker));
+	}
+
+	hand_on_requests(removed, "Worker timed out and its job cannot be reassigned", respond);
+	update_runtime_stats();
+}
+
+void broker_handler::hand_on_requests(
+	const std::list<removed_worker> &removed, const std::string &failure_msg, const response_cb &respond)
+{
+	reactor_status_notifier status_notifier(respond, broker_connect::KEY_STATUS_NOTIFIER);
+
+	for (const auto &pair : removed) {
+		const auto &worker = pair.first;
+		const auto &requests = pair.second;
 		std::vector<worker::request_ptr> unassigned_requests;
 
 		for (const auto &request : *requests) {
@@ -468,7 +482,10 @@ void broker_handler::process_timer(const message_container &message, const handl
 			}
 		}
 	}
+}
 
+void broker_handler::update_runtime_stats()
+{
 	runtime_stats_[STATS_QUEUED_JOBS] = queue_->get_queued_request_count();
 	runtime_stats_[STATS_WORKER_COUNT] = workers_->get_workers().size();
 
diff --git a/src/handlers/broker_handler.h b/src/handlers/broker_handler.h
index 5268ee8..9ceb519 100644
--- a/src/handlers/broker_handler.h
+++ b/src/handlers/broker_handler.h
@@ -1,6 +1,7 @@
 #ifndef RECODEX_BROKER_BROKER_HANDLER_H
 #define RECODEX_BROKER_BROKER_HANDLER_H
 
+#include <list>
 #include <spdlog/logger.h>
 
 #include "../config/broker_config.h"
@@ -127,6 +128,23 @@ private:
 	 */
 	void process_timer(const message_container &message, const response_cb &respond);
 
+	/** A worker that is not registered anymore and the requests it left behind */
+	using removed_worker = std::pair<worker_registry::worker_ptr, std::shared_ptr<std::vector<request_ptr>>>;
+
+	/**
+	 * Reassign the requests of removed workers, notify the frontend about those that nobody can take.
+	 * @param removed the removed workers and their requests
+	 * @param failure_msg a message describing why the workers lost their requests
+	 * @param respond a callback to notify the new workers, the frontend and the monitor
+	 */
+	void hand_on_requests(
+		const std::list<removed_worker> &removed, const std::string &failure_msg, const response_cb &respond);
+
+	/**
+	 * Update the statistics about workers and waiting jobs.
+	 */
+	void update_runtime_stats();
+
 	/**
 	 * Find a substitute worker to try and process the request again.
 	 * @param request the request to reassign
-- 
2.43.0


From bce6dda05bb624d6e5eeff13e173147370ca25ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:27 +0000
Subject: [PATCH 21/25] fix: a changed registration replaces the worker's
 previous record and hands on its jobs

---
 src/handlers/broker_handler.cpp | 39 ++++++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/src/handlers/broker_handler.cpp b/src/handlers/broker_handler.cpp
index 68d8fb1..3d47083 100644
--- a/src/handlers/broker_handler.cpp
+++ b/src/handlers/broker_handler.cpp
@@ -2,6 +2,7 @@
 
 #include "../broker_connect.h"
 #include "../notifier/reactor_status_notifier.h"
+#include <algorithm>
 #include <memory>
 
 broker_handler::broker_handler(std::shared_ptr<const broker_config> config,
@@ -221,7 +222,7 @@ void broker_handler::process_worker_init(
 	worker_registry::worker_ptr current_worker = workers_->find_worker_by_identity(identity);
 
 	if (current_worker != nullptr) {
-		if (current_worker->headers_equal(headers)) {
+		if (current_worker->hwgroup == hwgroup && current_worker->headers_equal(headers)) {
 			// We don't have to update anything
 			return;
 		}
@@ -252,7 +253,21 @@ void broker_handler::process_worker_init(
 		}
 	}
 
-	// Insert the worker into the registry
+	// The worker might still be processing the job we gave it before it introduced itself again
+	if (current_worker != nullptr && current_request != nullptr) {
+		auto known_request = queue_->get_current_request(current_worker);
+
+		if (known_request != nullptr && known_request->data.get_job_id() == current_request->data.get_job_id()) {
+			current_request = known_request;
+		}
+	}
+
+	// Insert the worker into the registry (instead of its previous record)
+	if (current_worker != nullptr) {
+		workers_->remove_worker(current_worker);
+		worker_timers_.erase(current_worker);
+	}
+
 	workers_->add_worker(new_worker);
 	request_ptr request = queue_->add_worker(new_worker, current_request);
 
@@ -261,6 +276,21 @@ void broker_handler::process_worker_init(
 		send_request(new_worker, request, respond);
 	}
 
+	// Hand on the jobs of the previous record
+	if (current_worker != nullptr) {
+		auto lost_request = queue_->get_current_request(current_worker);
+		auto requests = queue_->worker_terminated(current_worker);
+
+		if (lost_request != nullptr && lost_request == current_request) {
+			requests->erase(std::remove(requests->begin(), requests->end(), lost_request), requests->end());
+		} else if (lost_request != nullptr) {
+			lost_request->failure_count += 1;
+		}
+
+		hand_on_requests(
+			{{current_worker, requests}}, "Worker introduced itself again without its job", respond);
+	}
+
 	// Start an idle timer for our new worker
 	worker_timers_.emplace(new_worker, std::chrono::milliseconds(0));
 
@@ -339,7 +369,10 @@ void broker_handler::process_worker_done(
 			status_notifier.rejected_job(
 				failed_request->data.get_job_id(), "Job failed with '" + message.at(3) + "' and cannot be reassigned");
 		} else if (check_failure_count(failed_request, status_notifier, respond, message.at(3))) {
-			reassign_request(failed_request, respond);
+			if (!reassign_request(failed_request, respond)) {
+				status_notifier.rejected_job(failed_request->data.get_job_id(),
+					"Job failed with '" + message.at(3) + "' and cannot be reassigned");
+			}
 		}
 
 		runtime_stats_[STATS_FAILED_JOBS] += 1;
-- 
2.43.0


From a1a411279ad358345adb465a8c0b7b29758edc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:02 +0000
Subject: [PATCH 22/25] fix: documented log levels emerg, alert and notice no
 longer select the most verbose level

---
 src/helpers/logger.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/helpers/logger.cpp b/src/helpers/logger.cpp
index ec3f6e8..d049341 100644
--- a/src/helpers/logger.cpp
+++ b/src/helpers/logger.cpp
@@ -13,13 +13,15 @@ spdlog::level::level_enum helpers::get_log_level(const std::string &lev)
 {
 	if (lev == "off") {
 		return spdlog::level::off;
-	} else if (lev == "critical") {
+	} else if (lev == "critical" || lev == "alert" || lev == "emerg") {
+		// spdlog has no separate levels for alerts and emergencies
 		return spdlog::level::critical;
 	} else if (lev == "err") {
 		return spdlog::level::err;
 	} else if (lev == "warn") {
 		return spdlog::level::warn;
-	} else if (lev == "info") {
+	} else if (lev == "info" || lev == "notice") {
+		// ... nor for notices
 		return spdlog::level::info;
 	} else if (lev == "debug") {
 		return spdlog::level::debug;
-- 
2.43.0


From 502874e20f4a11e920ab7562a2e4e0a1a3e5b70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:05 +0000
Subject: [PATCH 23/25] fix: a reactor whose loop could not start stops its
 asynchronous handlers before closing their socket

---
 src/reactor/reactor.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/reactor/reactor.h b/src/reactor/reactor.h
index 0117860..3c1946e 100644
--- a/src/reactor/reactor.h
+++ b/src/reactor/reactor.h
@@ -198,11 +198,6 @@ private:
 	 */
 	std::map<std::string, std::shared_ptr<socket_wrapper_base>> sockets_;
 
-	/**
-	 * Handlers indexed by the keys of all the events they are subscribed to
-	 */
-	std::multimap<std::string, std::shared_ptr<handler_wrapper>> handlers_;
-
 	/**
 	 * A ZeroMQ context
 	 */
@@ -213,6 +208,12 @@ private:
 	 */
 	zmq::socket_t async_handler_socket_;
 
+	/**
+	 * Handlers indexed by the keys of all the events they are subscribed to.
+	 * Asynchronous handlers are terminated through the socket above, so they must be destroyed before it.
+	 */
+	std::multimap<std::string, std::shared_ptr<handler_wrapper>> handlers_;
+
 	/**
 	 * Flag used to tell the reactor to terminate the main loop
 	 */
-- 
2.43.0


From 2e8536d907aac284f34a8039b4ed0656d3130133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:20 +0000
Subject: [PATCH 24/25] fix: messages sent to an asynchronous handler before
 its thread has connected are not dropped

---
 src/reactor/reactor.cpp | 13 +++++++------
 src/reactor/reactor.h   |  3 ++-
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/reactor/reactor.cpp b/src/reactor/reactor.cpp
index ee9b4c5..478eed9 100644
--- a/src/reactor/reactor.cpp
+++ b/src/reactor/reactor.cpp
@@ -158,7 +158,12 @@ asynchronous_handler_wrapper::asynchronous_handler_wrapper(zmq::context_t &conte
 	: handler_wrapper(reactor_ref, handler), context_(context), reactor_socket_(async_handler_socket),
 	  unique_id_(std::to_string((uintptr_t) this))
 {
-	worker_ = std::thread([this]() { handler_thread(); });
+	// The connection has to exist before anything is sent to the handler, otherwise the message would be dropped
+	zmq::socket_t socket(context_, zmq::socket_type::dealer);
+	socket.setsockopt(ZMQ_IDENTITY, unique_id_.data(), unique_id_.size());
+	socket.connect("inproc://" + reactor_.unique_id);
+
+	worker_ = std::thread(&asynchronous_handler_wrapper::handler_thread, this, std::move(socket));
 }
 
 asynchronous_handler_wrapper::~asynchronous_handler_wrapper()
@@ -182,12 +187,8 @@ void asynchronous_handler_wrapper::operator()(const message_container &message)
 	}
 }
 
-void asynchronous_handler_wrapper::handler_thread()
+void asynchronous_handler_wrapper::handler_thread(zmq::socket_t socket)
 {
-	zmq::socket_t socket(context_, zmq::socket_type::dealer);
-	socket.setsockopt(ZMQ_IDENTITY, unique_id_.data(), unique_id_.size());
-	socket.connect("inproc://" + reactor_.unique_id);
-
 	while (true) {
 		message_container request;
 		zmq::message_t message;
diff --git a/src/reactor/reactor.h b/src/reactor/reactor.h
index 3c1946e..d6d34ea 100644
--- a/src/reactor/reactor.h
+++ b/src/reactor/reactor.h
@@ -102,8 +102,9 @@ private:
 	/**
 	 * The worker thread function. It contains a loop that doesn't terminate until a termination message arrives
 	 * from the reactor.
+	 * @param socket a socket connected to the reactor
 	 */
-	void handler_thread();
+	void handler_thread(zmq::socket_t socket);
 
 	/**
 	 * Send a message back to the reactor through the inprocess socket
-- 
2.43.0


From c767ddd3e947eca9f4698283010cfc5181bf903c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:20 +0000
Subject: [PATCH 25/25] fix: a log file configured without a directory does not
 prevent the broker from starting

---
 src/broker_core.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/broker_core.cpp b/src/broker_core.cpp
index 2903f04..1311a67 100644
--- a/src/broker_core.cpp
+++ b/src/broker_core.cpp
@@ -90,7 +90,8 @@ void broker_core::log_init()
 	// Try to create target directory for logs
 	auto path = fs::path(log_conf.log_path);
 	try {
-		if (!fs::is_directory(path)) {
+		// (there is nothing to create for a plain file name)
+		if (!path.empty() && !fs::is_directory(path)) {
 			fs::create_directories(path);
 		}
 	} catch (fs::filesystem_error &e) {
-- 
2.43.0

