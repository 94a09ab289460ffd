From 4a03124b8f2eba52a919c67a8ff0b9b359579981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:20 +0000
Subject: [PATCH 01/40] fix: advance the buffer after a partial send

conn_send and conn_send_to sent the beginning of the buffer again when the
system accepted only a part of it, which corrupted the stream.
---
 src/conn.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index c6cb978..bd6db56 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -596,7 +596,6 @@ int conn_send(struct conn_handle *conn, const uint8_t *buff, size_t buff_len)
 
 	if (priv->fd != INVALID_SOCKET) {
 		while (buff_len > 0) {
-			/*! @TODO Bug? buff isn't changed */
 			ret = send(priv->fd, (const char *)buff, (socklen_t)buff_len,
 				   MSG_NOSIGNAL);
 
@@ -617,6 +616,7 @@ int conn_send(struct conn_handle *conn, const uint8_t *buff, size_t buff_len)
 			}
 
 			buff_len -= ret;
+			buff += ret;
 		}
 
 		ret = 0;
@@ -650,7 +650,6 @@ int conn_send_to(struct conn_handle *conn, const uint8_t *buff,
 
 	if (priv->fd != INVALID_SOCKET) {
 		while (buff_len > 0) {
-			/*! @TODO Bug? buff isn't changed */
 			ret = sendto(priv->fd, (const char *)buff,
 				     (socklen_t)buff_len, MSG_NOSIGNAL,
 				     (struct sockaddr *)&saddr,
@@ -672,6 +671,7 @@ int conn_send_to(struct conn_handle *conn, const uint8_t *buff,
 			}
 
 			buff_len -= ret;
+			buff += ret;
 		}
 
 		ret = 0;
-- 
2.43.0


From 3166807a817d746dbe90af1bbf443d3c49ebfa9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:27 +0000
Subject: [PATCH 02/40] fix: register a proxy which has no registration comment

send_report passed the missing comment to strlen and sprintf.
---
 src/registration.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/registration.c b/src/registration.c
index df6d7ce..e47f309 100644
--- a/src/registration.c
+++ b/src/registration.c
@@ -325,7 +325,8 @@ int registration_service_start(struct registration_service_handle *rs,
 	priv->public = strcmp(conf->password, "PUBLIC") == 0 ? 'Y' : 'N';
 
 	priv->reg_name = conf->reg_name;
-	priv->reg_comment = conf->reg_comment;
+	priv->reg_comment = conf->reg_comment == NULL ?
+			    "" : conf->reg_comment;
 
 	if (priv->reg_suffix != NULL)
 		free((void *)priv->reg_suffix);
-- 
2.43.0


From b2b1dc86ae82d3d429f933bd24d89fb4f98f7922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:27 +0000
Subject: [PATCH 03/40] fix: make room for the registration name in the digest
 buffer

A long registration name overflowed the heap buffer.
---
 src/registration.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/registration.c b/src/registration.c
index e47f309..8224d10 100644
--- a/src/registration.c
+++ b/src/registration.c
@@ -330,7 +330,9 @@ int registration_service_start(struct registration_service_handle *rs,
 
 	if (priv->reg_suffix != NULL)
 		free((void *)priv->reg_suffix);
-	reg_suffix = malloc(strlen(public_addr) + (2 * DIGEST_LEN) +
+	/* This buffer also holds the digest input, which includes the name */
+	reg_suffix = malloc(strlen(priv->reg_name) + strlen(public_addr) +
+			    sizeof(digest_salt) + (2 * DIGEST_LEN) +
 			    sizeof(protocol_version) + 18);
 	if (reg_suffix == NULL) {
 		ret = -ENOMEM;
-- 
2.43.0


From aa4d09e12d1c40d254225b8238de9ed2f2a33d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:28 +0000
Subject: [PATCH 04/40] fix: forget the freed registration suffix

If the following allocation failed, the next start freed it again.
---
 src/registration.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/registration.c b/src/registration.c
index 8224d10..123d6e5 100644
--- a/src/registration.c
+++ b/src/registration.c
@@ -328,8 +328,8 @@ int registration_service_start(struct registration_service_handle *rs,
 	priv->reg_comment = conf->reg_comment == NULL ?
 			    "" : conf->reg_comment;
 
-	if (priv->reg_suffix != NULL)
-		free((void *)priv->reg_suffix);
+	free((void *)priv->reg_suffix);
+	priv->reg_suffix = NULL;
 	/* This buffer also holds the digest input, which includes the name */
 	reg_suffix = malloc(strlen(priv->reg_name) + strlen(public_addr) +
 			    sizeof(digest_salt) + (2 * DIGEST_LEN) +
-- 
2.43.0


From 52ffeb75a62fad82ea48484546eacebd277b8e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:28 +0000
Subject: [PATCH 05/40] fix: do not wait for a silent registrar forever

A registrar which accepts the connection but never answers stopped all
further reports, and closing the proxy never returned.
---
 src/registration.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/registration.c b/src/registration.c
index 123d6e5..72e248a 100644
--- a/src/registration.c
+++ b/src/registration.c
@@ -65,6 +65,9 @@
 /*! Update (at least) every 10 minutes */
 #define UPDATE_INTERVAL 600000
 
+/*! Give up on a registrar which sends nothing for 30 seconds */
+#define RESPONSE_TIMEOUT 30000
+
 /*!
  * @brief Possible statuses of a proxy server to report to registrar
  */
@@ -227,6 +230,10 @@ static int send_report(struct registration_service_handle *rs,
 	if (ret < 0)
 		goto registration_update_exit;
 
+	ret = conn_set_timeout(&conn, RESPONSE_TIMEOUT);
+	if (ret < 0)
+		goto registration_update_exit;
+
 	ret = conn_send(&conn, (uint8_t *)message_header, header_length);
 	if (ret < 0)
 		goto registration_update_exit;
-- 
2.43.0


From 51b6f6640ec3c12884405de9fed902e32e40b791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:28 +0000
Subject: [PATCH 06/40] fix: report the proxy to the registrar when it is
 opened again

After proxy_close the registration service ignores updates until it is
started, so the update made before starting it was lost.
---
 src/proxy.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/proxy.c b/src/proxy.c
index 64e4c53..2aba2b0 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -1064,7 +1064,6 @@ int proxy_start(struct proxy_handle *ph)
 	priv->usable_clients = priv->num_clients;
 	mutex_unlock(&priv->usable_clients_mutex);
 
-	proxy_update_registration(ph);
 	ret = registration_service_start(&priv->reg_service, &ph->conf);
 	if (ret < 0) {
 		proxy_log(ph, LOG_LEVEL_FATAL,
@@ -1073,6 +1072,9 @@ int proxy_start(struct proxy_handle *ph)
 		goto proxy_start_exit;
 	}
 
+	/* Updates are ignored until the service has been started */
+	proxy_update_registration(ph);
+
 	return 0;
 
 proxy_start_exit:
-- 
2.43.0


From e910dc3fba5da0724207d88ac5468a0954fdcbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:21 +0000
Subject: [PATCH 07/40] fix: release the previous log medium

Selecting no medium or the console overwrote the current medium before
deciding what to release, so a log file stayed open, also after
proxy_close.
---
 src/log.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/log.c b/src/log.c
index 1616307..f79ac8a 100644
--- a/src/log.c
+++ b/src/log.c
@@ -203,13 +203,14 @@ int log_select_medium(struct log_handle *log, enum LOG_MEDIUM medium,
 		      const char *target)
 {
 	struct log_priv *priv = log->priv;
+	enum LOG_MEDIUM old_medium = log->medium;
 	int ret = 0;
 
 	/* Open the new medium */
 	switch (medium) {
 	case LOG_MEDIUM_NONE:
 		log->medium = LOG_MEDIUM_NONE;
-		switch (log->medium) {
+		switch (old_medium) {
 		case LOG_MEDIUM_FILE:
 			if (priv->medium_file.fp != NULL) {
 				fclose(priv->medium_file.fp);
@@ -227,12 +228,14 @@ int log_select_medium(struct log_handle *log, enum LOG_MEDIUM medium,
 				priv->medium_eventlog.handle = NULL;
 			}
 
+			break;
+		default:
 			break;
 		}
 		break;
 	case LOG_MEDIUM_STDOUT:
 		log->medium = LOG_MEDIUM_STDOUT;
-		switch (log->medium) {
+		switch (old_medium) {
 		case LOG_MEDIUM_FILE:
 			if (priv->medium_file.fp != NULL) {
 				fclose(priv->medium_file.fp);
-- 
2.43.0


From 0014c30eb2adc49d59ac4e2b1831413a6edf70ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:21 +0000
Subject: [PATCH 08/40] fix: keep lines in the log file whole

Threads logging at the same time could write between the timestamp and
the message of another line.
---
 src/log.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/log.c b/src/log.c
index f79ac8a..9bffbbb 100644
--- a/src/log.c
+++ b/src/log.c
@@ -64,6 +64,8 @@
 
 #ifdef _WIN32
 #  define localtime_r(timep, result) (localtime_s(result, timep) == 0 ? result : NULL)
+#  define flockfile(fp) _lock_file(fp)
+#  define funlockfile(fp) _unlock_file(fp)
 #endif
 
 /*!
@@ -404,10 +406,14 @@ void log_vprintf(struct log_handle *log, enum LOG_LEVEL lvl,
 			time(&epoch);
 			localtime_r(&epoch, &cal_time);
 			strftime(tstamp, 16, "%b %d %H:%M:%S", &cal_time);
+
+			/* The timestamp and the message are one line */
+			flockfile(priv->medium_file.fp);
 			fprintf(priv->medium_file.fp, "%s : ", tstamp);
 
 			vfprintf(priv->medium_file.fp, fmt, args);
 			fflush(priv->medium_file.fp);
+			funlockfile(priv->medium_file.fp);
 		}
 
 		break;
-- 
2.43.0


From e051cb04e8a0fa1b2ef06c42224720661a83ad3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:32 +0000
Subject: [PATCH 09/40] fix: drop clients which are still being authorized

proxy_close waited for such a client to answer or to disconnect.
---
 src/proxy.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/proxy.c b/src/proxy.c
index 2aba2b0..2c4e022 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -895,6 +895,18 @@ void proxy_drop(struct proxy_handle *ph)
 
 	for (i = 0; i < priv->num_clients; i++)
 		proxy_conn_drop(&priv->clients[i]);
+
+	/* Some clients may not have been given a slot yet */
+	for (i = 0; i < priv->num_clients; i++) {
+		struct proxy_worker *pw = &priv->client_workers[i];
+
+		mutex_lock_shared(&pw->mutex);
+
+		if (pw->conn_client != NULL)
+			conn_drop(pw->conn_client);
+
+		mutex_unlock_shared(&pw->mutex);
+	}
 }
 
 void proxy_shutdown(struct proxy_handle *ph)
-- 
2.43.0


From aa7ad40a820d02c12fb166e863e5040a570d5653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:32 +0000
Subject: [PATCH 10/40] fix: do not keep freed workers in the list of idle
 workers

Workers which end while the proxy is closed put themselves back into the
list, and a failure to initialize a worker left the others in it.
---
 src/proxy.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/proxy.c b/src/proxy.c
index 2c4e022..31c84e9 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -814,11 +814,11 @@ int proxy_open(struct proxy_handle *ph)
 	return 0;
 
 proxy_open_exit_later:
-	priv->idle_workers_head = NULL;
 	for (i = 0; i < priv->num_clients; i++)
 		proxy_worker_free(&priv->client_workers[i]);
 
 proxy_open_exit_late:
+	priv->idle_workers_head = NULL;
 	priv->idle_clients_head = NULL;
 	priv->idle_clients_tail_ptr = NULL;
 	for (i = 0; i < priv->num_clients; i++)
@@ -861,9 +861,9 @@ void proxy_close(struct proxy_handle *ph)
 
 	proxy_log(ph, LOG_LEVEL_DEBUG, "Closing client connections...\n");
 
-	priv->idle_workers_head = NULL;
 	for (i = 0; i < priv->num_clients; i++)
 		proxy_worker_free(&priv->client_workers[i]);
+	priv->idle_workers_head = NULL;
 
 	memset(priv->clients_by_call, 0x0, sizeof(priv->clients_by_call));
 	priv->idle_clients_head = NULL;
-- 
2.43.0


From 135998a2b1507f510ccd2460aa49be230b5a44e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:32 +0000
Subject: [PATCH 11/40] fix: do not reconnect to a slot which is not in the
 idle pool

A client which reconnected while its previous session was being cleaned
up got a slot which was not in the pool yet. Removing it from the pool
corrupted the list, and the old session then put the slot back into the
pool although it was in use.
---
 src/proxy.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/proxy.c b/src/proxy.c
index 31c84e9..e3508fc 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -376,9 +376,13 @@ static void proxy_worker_func(struct worker_handle *wh)
 	pc = priv->clients_by_call[hash];
 	/* First, check for a reconnect */
 	while (pc != NULL) {
-		ret = proxy_conn_accept(pc, pw->conn_client, pw->callsign, 1);
-		if (ret != -EBUSY)
-			break;
+		/* The slot may not be back in the pool yet */
+		if (pc->prev_ptr != NULL) {
+			ret = proxy_conn_accept(pc, pw->conn_client,
+						pw->callsign, 1);
+			if (ret != -EBUSY)
+				break;
+		}
 		pc = pc->next_by_call;
 	}
 	/* Fall back on the oldest available slot */
@@ -400,6 +404,7 @@ static void proxy_worker_func(struct worker_handle *wh)
 		priv->idle_clients_tail_ptr = pc->prev_ptr;
 	else
 		pc->next->prev_ptr = pc->prev_ptr;
+	pc->prev_ptr = NULL;
 
 	/* Remove the slot from the hash map */
 	if (pc->prev_by_call_ptr != NULL) {
-- 
2.43.0


From 019e34f2850c7a3bbc27e482636c70e289d0fd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:32 +0000
Subject: [PATCH 12/40] fix: update the registration after a failed
 authorization

A client which was being authorized counted as a used slot in updates
made on behalf of other clients, and stayed counted.
---
 src/proxy.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/proxy.c b/src/proxy.c
index e3508fc..4093ae2 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -356,6 +356,9 @@ static void proxy_worker_func(struct worker_handle *wh)
 		priv->idle_workers_head = pw;
 		mutex_unlock(&priv->idle_workers_mutex);
 
+		/* This client may have been counted in another update */
+		proxy_update_registration(pw->ph);
+
 		return;
 	}
 
-- 
2.43.0


From 61d232e7ab616730aea244045cbae29fd1c2f86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:32 +0000
Subject: [PATCH 13/40] fix: keep concurrent registration updates in order

When two clients came or went at the same time, the older numbers could
be passed to the registration service last and were then reported until
the next change.
---
 src/proxy.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/proxy.c b/src/proxy.c
index 4093ae2..8985fb8 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -1117,15 +1117,15 @@ void proxy_update_registration(struct proxy_handle *ph)
 	int slots_used;
 	int slots_total;
 
+	/* Concurrent updates must be passed on in the order in which the
+	 * numbers were determined, or the older one is reported from then on
+	 */
 	mutex_lock_shared(&priv->usable_clients_mutex);
+	mutex_lock(&priv->idle_workers_mutex);
 	slots_total = priv->usable_clients;
 	slots_used = priv->num_clients;
-	mutex_unlock_shared(&priv->usable_clients_mutex);
-
-	mutex_lock_shared(&priv->idle_workers_mutex);
 	for (pw = priv->idle_workers_head; pw != NULL; pw = pw->next)
 		slots_used--;
-	mutex_unlock_shared(&priv->idle_workers_mutex);
 
 	proxy_log(ph, LOG_LEVEL_DEBUG,
 		  "Sending update to registrar (%d/%d)\n",
@@ -1133,4 +1133,6 @@ void proxy_update_registration(struct proxy_handle *ph)
 
 	registration_service_update(&priv->reg_service, slots_used,
 				    slots_total);
+	mutex_unlock(&priv->idle_workers_mutex);
+	mutex_unlock_shared(&priv->usable_clients_mutex);
 }
-- 
2.43.0


From c29ea05f3d2777c118a549dc70f5f34e9f98c65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:32 +0000
Subject: [PATCH 14/40] fix: end the previous TCP connection before opening
 another

Opening a connection while another one was open leaked its socket, and
the forwarder of a connection which was just closed could close the new
one or forward its data as part of the old one.
---
 src/proxy_conn.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/proxy_conn.c b/src/proxy_conn.c
index 8476133..7926076 100644
--- a/src/proxy_conn.c
+++ b/src/proxy_conn.c
@@ -725,6 +725,10 @@ static int process_tcp_open_message(struct proxy_conn_handle *pc,
 		return -EINVAL;
 	}
 
+	/* End the previous connection, including its forwarder */
+	conn_close(&priv->conn_tcp);
+	worker_wait_idle(&priv->worker_tcp);
+
 	/* Attempt to connect */
 	ret = conn_connect(&priv->conn_tcp, (const char *)addr, "5200");
 	if (ret < 0) {
-- 
2.43.0


From 2e693e0ac103b7d2cd68f1d5840bd50100bfc380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:32 +0000
Subject: [PATCH 15/40] fix: send the TCP status before any data of that
 connection

The forwarder was woken before the status was sent, and data or a close
message of the new connection could reach the client first.
---
 src/proxy_conn.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/proxy_conn.c b/src/proxy_conn.c
index 7926076..2dcf67f 100644
--- a/src/proxy_conn.c
+++ b/src/proxy_conn.c
@@ -735,7 +735,12 @@ static int process_tcp_open_message(struct proxy_conn_handle *pc,
 		proxy_log(pc->ph, LOG_LEVEL_WARN,
 			  "Failed to open TCP connection for client '%s' (%d): %s\n",
 			  priv->callsign, -ret, strerror(-ret));
-	} else {
+	}
+
+	/* Nothing from the remote host may be forwarded before the status */
+	mutex_lock(&priv->mutex_client_send);
+
+	if (ret >= 0) {
 		/* Connection succeeded - signal the thread */
 		ret = worker_wake(&priv->worker_tcp);
 		if (ret < 0)
@@ -754,8 +759,6 @@ static int process_tcp_open_message(struct proxy_conn_handle *pc,
 		  "Sending TCP_STATUS message (%d) to client '%s'\n",
 		  ret, priv->callsign);
 
-	mutex_lock(&priv->mutex_client_send);
-
 	ret = conn_send(priv->conn_client, status_buf,
 			sizeof(*status_msg) + status_msg->size);
 
-- 
2.43.0


From dd17dcd7c6acc453d3d8daff6c7f50f0a80f8472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:32 +0000
Subject: [PATCH 16/40] fix: report a failure of proxy_conn_init

It returned success after freeing the private data, which was used from
then on.
---
 src/proxy_conn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/proxy_conn.c b/src/proxy_conn.c
index 2dcf67f..1d8edc4 100644
--- a/src/proxy_conn.c
+++ b/src/proxy_conn.c
@@ -990,7 +990,7 @@ proxy_conn_init_exit:
 	free(pc->priv);
 	pc->priv = NULL;
 
-	return 0;
+	return ret;
 }
 
 int proxy_conn_in_use(struct proxy_conn_handle *pc)
-- 
2.43.0


From 65c203564d8e96f21f3b96a5f9e70038c69581c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:32 +0000
Subject: [PATCH 17/40] fix: ignore empty UDP datagrams

An empty datagram was taken for a shutdown of the socket and stopped all
forwarding of that kind for the session.
---
 src/conn.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index bd6db56..340d630 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -546,8 +546,6 @@ int conn_recv_any(struct conn_handle *conn, uint8_t *buff, size_t buff_len,
 	struct conn_priv *priv = conn->priv;
 	int ret;
 
-	priv->remote_addr_len = sizeof(priv->remote_addr);
-
 	mutex_lock_shared(&priv->mutex);
 
 	if (priv->fd == INVALID_SOCKET) {
@@ -556,9 +554,15 @@ int conn_recv_any(struct conn_handle *conn, uint8_t *buff, size_t buff_len,
 		goto conn_recv_any_exit;
 	}
 
-	ret = recvfrom(priv->fd, (char *)buff, (socklen_t)buff_len, 0,
-		       (struct sockaddr *)&priv->remote_addr,
-		       &priv->remote_addr_len);
+	/* An empty datagram has a sender and does not mean the end */
+	do {
+		priv->remote_addr_len = sizeof(priv->remote_addr);
+
+		ret = recvfrom(priv->fd, (char *)buff, (socklen_t)buff_len, 0,
+			       (struct sockaddr *)&priv->remote_addr,
+			       &priv->remote_addr_len);
+	} while (ret == 0 && conn->type == CONN_TYPE_UDP &&
+		 priv->remote_addr_len > 0);
 
 	if (ret == 0) {
 		ret = -EPIPE;
-- 
2.43.0


From 430747c263d357db320d0c2a1598ca254e8a6fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:11 +0000
Subject: [PATCH 18/40] fix: hold the exclusive lock again after waiting for a
 condition

A condition wait returned with the underlying lock only, even while
others were still holding the shared lock.
---
 src/mutex_posix.c | 51 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 38 insertions(+), 13 deletions(-)

diff --git a/src/mutex_posix.c b/src/mutex_posix.c
index 3469e69..e32c22b 100644
--- a/src/mutex_posix.c
+++ b/src/mutex_posix.c
@@ -74,6 +74,28 @@ struct condvar_priv {
 	pthread_cond_t cond;
 };
 
+/*!
+ * @brief Waits until there are no more holders of the shared lock
+ *
+ * @param[in,out] priv Private data of the mutex, which must be locked
+ *
+ * @returns 0 on success, negative ERRNO value on failure
+ */
+static int mutex_wait_readers(struct mutex_priv *priv);
+
+static int mutex_wait_readers(struct mutex_priv *priv)
+{
+	int ret;
+
+	while (priv->readers > 0) {
+		ret = pthread_cond_wait(&priv->cond, &priv->lock);
+		if (ret != 0)
+			return -ret;
+	}
+
+	return 0;
+}
+
 int mutex_init(struct mutex_handle *mutex)
 {
 	struct mutex_priv *priv = mutex->priv;
@@ -122,18 +144,9 @@ int mutex_lock(struct mutex_handle *mutex)
 	if (ret != 0)
 		return -ret;
 
-	while (priv->readers > 0) {
-		ret = pthread_cond_wait(&priv->cond, &priv->lock);
-		if (ret != 0) {
-			ret = -ret;
-			goto mutex_lock_exit;
-		}
-	}
-
-	return 0;
-
-mutex_lock_exit:
-	pthread_mutex_unlock(&priv->lock);
+	ret = mutex_wait_readers(priv);
+	if (ret < 0)
+		pthread_mutex_unlock(&priv->lock);
 
 	return ret;
 }
@@ -231,8 +244,13 @@ int condvar_wait(struct condvar_handle *condvar, struct mutex_handle *mutex)
 {
 	struct condvar_priv *priv = condvar->priv;
 	struct mutex_priv *mpriv = mutex->priv;
+	int ret;
 
-	return -pthread_cond_wait(&priv->cond, &mpriv->lock);
+	ret = pthread_cond_wait(&priv->cond, &mpriv->lock);
+	if (ret != 0)
+		return -ret;
+
+	return mutex_wait_readers(mpriv);
 }
 
 int condvar_wait_time(struct condvar_handle *condvar,
@@ -241,6 +259,7 @@ int condvar_wait_time(struct condvar_handle *condvar,
 	struct condvar_priv *priv = condvar->priv;
 	struct mutex_priv *mpriv = mutex->priv;
 	struct timespec abstime;
+	int reader_ret;
 	int ret;
 
 	clock_gettime(CLOCK_REALTIME, &abstime);
@@ -249,6 +268,12 @@ int condvar_wait_time(struct condvar_handle *condvar,
 	abstime.tv_nsec %= 1000000000;
 
 	ret = pthread_cond_timedwait(&priv->cond, &mpriv->lock, &abstime);
+	if (ret == 0 || ret == ETIMEDOUT) {
+		reader_ret = mutex_wait_readers(mpriv);
+		if (reader_ret < 0)
+			return reader_ret;
+	}
+
 	return ret == ETIMEDOUT ? 1 : -ret;
 }
 
-- 
2.43.0


From bb21c41dd2e830b2c63151dcf4f2f12847a72e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:11 +0000
Subject: [PATCH 19/40] fix: do not let clock adjustments disturb timed waits

The registration interval was measured with the time of day, so setting
the clock back could stop registration for a long time.
---
 src/mutex_posix.c | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/mutex_posix.c b/src/mutex_posix.c
index e32c22b..9b9423d 100644
--- a/src/mutex_posix.c
+++ b/src/mutex_posix.c
@@ -49,6 +49,7 @@
 #include <string.h>
 
 #include <pthread.h>
+#include <time.h>
 
 #include "mutex.h"
 
@@ -66,6 +67,13 @@ struct mutex_priv {
 	unsigned int	readers;
 };
 
+/* Clock used for timed waits, which must not depend on the time of day */
+#ifndef __APPLE__
+#  define CONDVAR_CLOCK CLOCK_MONOTONIC
+#else
+#  define CONDVAR_CLOCK CLOCK_REALTIME
+#endif
+
 /*!
  * @brief Private data for an instance of a POSIX condition variable
  */
@@ -214,6 +222,7 @@ void mutex_free(struct mutex_handle *mutex)
 int condvar_init(struct condvar_handle *condvar)
 {
 	struct condvar_priv *priv = condvar->priv;
+	pthread_condattr_t attr;
 	int ret;
 
 	if (priv == NULL) {
@@ -224,7 +233,19 @@ int condvar_init(struct condvar_handle *condvar)
 		condvar->priv = priv;
 	}
 
-	ret = pthread_cond_init(&priv->cond, NULL);
+	ret = pthread_condattr_init(&attr);
+	if (ret != 0) {
+		ret = -ret;
+
+		goto condvar_init_exit;
+	}
+
+#ifndef __APPLE__
+	ret = pthread_condattr_setclock(&attr, CONDVAR_CLOCK);
+	if (ret == 0)
+#endif
+	ret = pthread_cond_init(&priv->cond, &attr);
+	pthread_condattr_destroy(&attr);
 	if (ret != 0) {
 		ret = -ret;
 
@@ -262,7 +283,7 @@ int condvar_wait_time(struct condvar_handle *condvar,
 	int reader_ret;
 	int ret;
 
-	clock_gettime(CLOCK_REALTIME, &abstime);
+	clock_gettime(CONDVAR_CLOCK, &abstime);
 	abstime.tv_nsec += (msec % 1000) * 1000000;
 	abstime.tv_sec += (msec / 1000) + (abstime.tv_nsec / 1000000000);
 	abstime.tv_nsec %= 1000000000;
-- 
2.43.0


From 1b411a621ad6fb2c71c95b2e2bdd87d68445f1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:11 +0000
Subject: [PATCH 20/40] fix: leave a worker stopped when its thread cannot be
 started

---
 src/worker.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/worker.c b/src/worker.c
index 5ecf36d..a4f20b0 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -260,6 +260,8 @@ int worker_start(struct worker_handle *wh)
 	if (priv->state <= WORKER_STOPPED) {
 		priv->state = WORKER_STARTING;
 		ret = thread_start(&priv->thread);
+		if (ret < 0)
+			priv->state = WORKER_STOPPED;
 	}
 
 	mutex_unlock(&priv->mutex);
-- 
2.43.0


From 88d999c182a815b010e6ad217606c2b42c4503d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:44 +0000
Subject: [PATCH 21/40] fix: do not forward TCP data after the close message

When sending to the remote host failed, the client was told that the
connection is closed while data received earlier was still being
forwarded to it.
---
 src/proxy_conn.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/proxy_conn.c b/src/proxy_conn.c
index 1d8edc4..0d566e7 100644
--- a/src/proxy_conn.c
+++ b/src/proxy_conn.c
@@ -696,8 +696,11 @@ static int process_tcp_data_message(struct proxy_conn_handle *pc,
 		}
 	}
 
-	if (tcp_ret != 0)
+	if (tcp_ret != 0) {
+		/* Nothing may be forwarded after telling the client */
+		worker_wait_idle(&priv->worker_tcp);
 		send_tcp_close(pc);
+	}
 
 	return 0;
 }
-- 
2.43.0


From cd8fb68e386d8be893bc4c04599aaf9ee48e3bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:27 +0000
Subject: [PATCH 22/40] fix: report failures to read the configuration

A read error or a failed allocation was taken for the end of the file,
so the proxy started with whatever had been read up to there, for
example without the callsigns it was told to deny.
---
 src/conf.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/conf.c b/src/conf.c
index e6058ba..d1c98f8 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -99,7 +99,7 @@ static int conf_parse_stream(FILE *stream, struct proxy_conf *conf,
  * @param[in,out] n Number of bytes in buffer
  * @param[in] stream File stream to read from
  *
- * @returns 0 on success, negative ERRNO value on failure
+ * @returns Length of the line, 0 at the end, negative ERRNO value on failure
  */
 static int conf_readline(char **lineptr, size_t *n, FILE *stream);
 
@@ -141,6 +141,9 @@ static int conf_readline(char **lineptr, size_t *n, FILE *stream)
 			break;
 	}
 
+	if (temp == EOF && ferror(stream))
+		return -EIO;
+
 	(*lineptr)[so_far] = '\0';
 
 	return (int)so_far;
@@ -440,7 +443,7 @@ static int conf_parse_stream(FILE *stream, struct proxy_conf *conf,
 	size_t line_len = 0;
 	int ret = 0;
 
-	while (conf_readline(&line, &line_len, stream) > 0) {
+	while ((ret = conf_readline(&line, &line_len, stream)) > 0) {
 		ret = conf_parse_line(line, conf, log);
 
 		free(line);
@@ -452,7 +455,7 @@ static int conf_parse_stream(FILE *stream, struct proxy_conf *conf,
 
 	free(line);
 
-	return 0;
+	return ret;
 }
 
 int conf_init(struct proxy_conf *conf)
-- 
2.43.0


From 1cde198d18deb390d7d7c72efd3e7c3d0399b41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:27 +0000
Subject: [PATCH 23/40] fix: replace additional addresses that are given again

The number of additional addresses kept growing with each occurrence, so
there were slots bound to no address, and the previous ones leaked.
---
 src/conf.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/conf.c b/src/conf.c
index d1c98f8..5e58409 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -381,15 +381,19 @@ static int conf_parse_pair(const char *key, size_t key_len,
 		if (strncmp(key, "AdditionalExternalBindAddresses", key_len) == 0) {
 			size_t i, j;
 
-			if (conf->bind_addr_ext_add != NULL)
-				free(conf->bind_addr_ext_add);
+			if (conf->bind_addr_ext_add != NULL) {
+				for (i = 0; i < conf->bind_addr_ext_add_len; i++)
+					free(conf->bind_addr_ext_add[i]);
 
-			if (val_len == 0) {
+				free(conf->bind_addr_ext_add);
 				conf->bind_addr_ext_add = NULL;
-				conf->bind_addr_ext_add_len = 0;
-				break;
 			}
 
+			conf->bind_addr_ext_add_len = 0;
+
+			if (val_len == 0)
+				break;
+
 			for (i = 1; i < val_len; i++)
 				if (val[i] == ',')
 					conf->bind_addr_ext_add_len++;
@@ -399,8 +403,10 @@ static int conf_parse_pair(const char *key, size_t key_len,
 			conf->bind_addr_ext_add = calloc(
 				conf->bind_addr_ext_add_len,
 				sizeof(*conf->bind_addr_ext_add));
-			if (conf->bind_addr_ext_add == NULL)
+			if (conf->bind_addr_ext_add == NULL) {
+				conf->bind_addr_ext_add_len = 0;
 				return -ENOMEM;
+			}
 
 			for (i = 0, j = 0; i < conf->bind_addr_ext_add_len; i++) {
 				size_t k = j;
-- 
2.43.0


From f2d6066e9890aa81b547893ef32a628b5312fd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:06 +0000
Subject: [PATCH 24/40] fix: free only what was initialized when proxy_init
 fails

The failure path called proxy_free, which uses every member, including
those that have not been initialized.
---
 src/proxy.c | 42 ++++++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/src/proxy.c b/src/proxy.c
index 8985fb8..777bac8 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -564,48 +564,70 @@ int proxy_init(struct proxy_handle *ph)
 	/* Initialize RNG */
 	ret = rand_init();
 	if (ret < 0)
-		goto proxy_init_exit;
+		goto proxy_init_exit_priv;
 
 	/* Initialize log */
 	ret = log_init(&priv->log);
 	if (ret < 0)
-		goto proxy_init_exit;
+		goto proxy_init_exit_rand;
 
 	/* Initialize config */
 	ret = conf_init(&ph->conf);
 	if (ret < 0)
-		goto proxy_init_exit;
+		goto proxy_init_exit_log;
 
 	/* Initialize communications */
 	priv->conn_listen.type = CONN_TYPE_TCP;
 	ret = conn_init(&priv->conn_listen);
 	if (ret < 0)
-		goto proxy_init_exit;
+		goto proxy_init_exit_conf;
 
 	/* Initialize registration service */
 	ret = registration_service_init(&priv->reg_service);
 	if (ret < 0)
-		goto proxy_init_exit;
+		goto proxy_init_exit_listen;
 
 	/* Initialize the usable_clients mutex */
 	ret = mutex_init(&priv->usable_clients_mutex);
 	if (ret < 0)
-		goto proxy_init_exit;
+		goto proxy_init_exit_reg;
 
 	/* Initialize the idle_clients mutex */
 	ret = mutex_init(&priv->idle_clients_mutex);
 	if (ret < 0)
-		goto proxy_init_exit;
+		goto proxy_init_exit_usable;
 
 	/* Initialize the idle_workers mutex */
 	ret = mutex_init(&priv->idle_workers_mutex);
 	if (ret < 0)
-		goto proxy_init_exit;
+		goto proxy_init_exit_idle;
 
 	return 0;
 
-proxy_init_exit:
-	proxy_free(ph);
+proxy_init_exit_idle:
+	mutex_free(&priv->idle_clients_mutex);
+
+proxy_init_exit_usable:
+	mutex_free(&priv->usable_clients_mutex);
+
+proxy_init_exit_reg:
+	registration_service_free(&priv->reg_service);
+
+proxy_init_exit_listen:
+	conn_free(&priv->conn_listen);
+
+proxy_init_exit_conf:
+	conf_free(&ph->conf);
+
+proxy_init_exit_log:
+	log_free(&priv->log);
+
+proxy_init_exit_rand:
+	rand_free();
+
+proxy_init_exit_priv:
+	free(ph->priv);
+	ph->priv = NULL;
 
 	return ret;
 }
-- 
2.43.0


From 9b012009d7f8e0b82c6831f62787f4d98d0b305a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:06 +0000
Subject: [PATCH 25/40] fix: forget the number of clients if they cannot be
 allocated

proxy_close and proxy_free accessed the missing clients after that.
---
 src/proxy.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/proxy.c b/src/proxy.c
index 777bac8..a1377a0 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -689,8 +689,10 @@ int proxy_open(struct proxy_handle *ph)
 	priv->num_clients = 1 + ph->conf.bind_addr_ext_add_len;
 
 	priv->clients = calloc(priv->num_clients, sizeof(*priv->clients));
-	if (priv->clients == NULL)
-		return -ENOMEM;
+	if (priv->clients == NULL) {
+		ret = -ENOMEM;
+		goto proxy_open_exit;
+	}
 
 	priv->client_workers = calloc(priv->num_clients,
 				      sizeof(struct proxy_worker));
-- 
2.43.0


From 409f959ab2fc94807e89e95d87bc579a3a4a8223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:06 +0000
Subject: [PATCH 26/40] fix: check for allocation failure in
 get_password_response

---
 src/proxy.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/proxy.c b/src/proxy.c
index a1377a0..553143a 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -1059,6 +1059,9 @@ int get_password_response(uint32_t nonce, const char *password,
 	uint8_t *pass_with_nonce = malloc(pass_with_nonce_len);
 	char *iter = (char *)pass_with_nonce;
 
+	if (pass_with_nonce == NULL)
+		return -ENOMEM;
+
 	while (*password != '\0') {
 		if (*password >= 97 && *password <= 122)
 			*iter = *password - 32;
-- 
2.43.0


From f7c074dba10dc378f77ac3ec056e5d47d71f0e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:06 +0000
Subject: [PATCH 27/40] fix: require a password to open the proxy

A configuration without one was accepted, and the proxy crashed when the
first client connected.
---
 src/proxy.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/proxy.c b/src/proxy.c
index 553143a..68b9c35 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -705,6 +705,12 @@ int proxy_open(struct proxy_handle *ph)
 	if (ret < 0)
 		goto proxy_open_exit;
 
+	if (ph->conf.password == NULL) {
+		proxy_log(ph, LOG_LEVEL_FATAL, "Missing password\n");
+		ret = -EINVAL;
+		goto proxy_open_exit;
+	}
+
 	if (ph->conf.calls_allowed != NULL) {
 		if (priv->re_calls_allowed == NULL) {
 			priv->re_calls_allowed = calloc(1,
-- 
2.43.0


From 8630ac63d921cf6b60413b5cafebef97963e8474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:06 +0000
Subject: [PATCH 28/40] fix: convert the port of remote addresses to host byte
 order

---
 src/conn.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index 340d630..2690fe8 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -809,7 +809,7 @@ void conn_get_remote_addr(const struct conn_handle *conn, char dest[54])
 		inet_ntop(addr->sin_family, &addr->sin_addr.s_addr, dest, 46);
 		dest += strlen(dest);
 		dest[0] = ':';
-		conn_port_to_str(addr->sin_port, dest + 1);
+		conn_port_to_str(ntohs(addr->sin_port), dest + 1);
 		break;
 	case AF_INET6:
 		dest[0] = '[';
@@ -818,7 +818,7 @@ void conn_get_remote_addr(const struct conn_handle *conn, char dest[54])
 		dest += strlen(dest);
 		dest[0] = ']';
 		dest[1] = ':';
-		conn_port_to_str(addr6->sin6_port, dest + 2);
+		conn_port_to_str(ntohs(addr6->sin6_port), dest + 2);
 		break;
 	default:
 		strcpy(dest, "(unknown)");
-- 
2.43.0


From 3652e3212e17ff3a9b011bf765bef63c45e57d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:33 +0000
Subject: [PATCH 29/40] fix: close the socket if it cannot be set up

It was overwritten by the next attempt, so each failure leaked a file
descriptor.
---
 src/conn.c | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index 2690fe8..32d9b87 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -235,34 +235,30 @@ int conn_listen(struct conn_handle *conn)
 	ret = setsockopt(priv->sock_fd, SOL_SOCKET, SO_REUSEADDR,
 			 (const void *)&yes, sizeof(yes));
 	if (ret == SOCKET_ERROR) {
-		/*! @TODO Close priv->sock_fd */
 		ret = SOCK_ERRNO;
-		goto conn_listen_free;
+		goto conn_listen_close;
 	}
 
 #ifdef __APPLE__
 	ret = setsockopt(priv->sock_fd, SOL_SOCKET, SO_NOSIGPIPE,
 			 (const void *)&yes, sizeof(yes));
 	if (ret == SOCKET_ERROR) {
-		/*! @TODO Close priv->sock_fd */
 		ret = SOCK_ERRNO;
-		goto conn_listen_free;
+		goto conn_listen_close;
 	}
 #endif
 
 	ret = bind(priv->sock_fd, res->ai_addr, (socklen_t)res->ai_addrlen);
 	if (ret == SOCKET_ERROR) {
-		/*! @TODO Close priv->sock_fd */
 		ret = SOCK_ERRNO;
-		goto conn_listen_free;
+		goto conn_listen_close;
 	}
 
 	if (conn->type == CONN_TYPE_TCP) {
 		ret = listen(priv->sock_fd, 0);
 		if (ret == SOCKET_ERROR) {
-			/*! @TODO Close priv->sock_fd */
 			ret = SOCK_ERRNO;
-			goto conn_listen_free;
+			goto conn_listen_close;
 		}
 	}
 
@@ -272,6 +268,12 @@ int conn_listen(struct conn_handle *conn)
 
 	mutex_unlock(&priv->mutex);
 
+	goto conn_listen_free;
+
+conn_listen_close:
+	closesocket(priv->sock_fd);
+	priv->sock_fd = INVALID_SOCKET;
+
 conn_listen_free:
 	freeaddrinfo(res);
 
@@ -398,7 +400,7 @@ int conn_connect(struct conn_handle *conn, const char *addr,
 			 (const void *)&yes, sizeof(yes));
 	if (ret == SOCKET_ERROR) {
 		ret = SOCK_ERRNO;
-		goto conn_connect_free_early;
+		goto conn_connect_free;
 	}
 
 #ifdef __APPLE__
@@ -406,7 +408,7 @@ int conn_connect(struct conn_handle *conn, const char *addr,
 			 (const void *)&yes, sizeof(yes));
 	if (ret == SOCKET_ERROR) {
 		ret = SOCK_ERRNO;
-		goto conn_connect_free_early;
+		goto conn_connect_free;
 	}
 #endif
 
-- 
2.43.0


From 7d9b6aec2299daacfad23e6c455fd2499184f7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:34 +0000
Subject: [PATCH 30/40] fix: free the denied callsigns regex when proxy_open
 fails

It could be left behind without having been initialized, and the next
proxy_open used it.
---
 src/proxy.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/proxy.c b/src/proxy.c
index 68b9c35..a176985 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -869,6 +869,12 @@ proxy_open_exit:
 		priv->re_calls_allowed = NULL;
 	}
 
+	if (priv->re_calls_denied != NULL) {
+		regex_free(priv->re_calls_denied);
+		free(priv->re_calls_denied);
+		priv->re_calls_denied = NULL;
+	}
+
 	log_close(&priv->log);
 
 	free(priv->client_workers);
-- 
2.43.0


From d3a012a56c6076971364c87f395dbdf3249741f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:42 +0000
Subject: [PATCH 31/40] fix: do not wait for a remote host when dropping a
 client

A client whose remote host does not read, or does not answer the
connection attempt, could not be dropped, and the proxy could not be
closed until the remote host did. The socket has to be known before the
attempt is made, so that it can be cancelled.
---
 src/conn.c       | 29 ++++++++++++++++++++---------
 src/proxy_conn.c |  6 +++++-
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index 32d9b87..20285a1 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -360,6 +360,7 @@ int conn_connect(struct conn_handle *conn, const char *addr,
 	struct addrinfo *res = NULL;
 	struct addrinfo *res_remote = NULL;
 	static const int yes = 1;
+	SOCKET sock_fd;
 	int ret;
 
 	if (conn->type != CONN_TYPE_TCP)
@@ -389,14 +390,20 @@ int conn_connect(struct conn_handle *conn, const char *addr,
 		goto conn_connect_free_early;
 	}
 
-	priv->sock_fd = socket(res->ai_family, res->ai_socktype,
-			       res->ai_protocol);
-	if (priv->sock_fd == INVALID_SOCKET) {
+	sock_fd = socket(res->ai_family, res->ai_socktype, res->ai_protocol);
+	if (sock_fd == INVALID_SOCKET) {
 		ret = SOCK_ERRNO;
 		goto conn_connect_free_early;
 	}
 
-	ret = setsockopt(priv->sock_fd, SOL_SOCKET, SO_REUSEADDR,
+	/* From here on, the attempt can be cancelled by conn_shutdown */
+	mutex_lock(&priv->mutex);
+
+	priv->sock_fd = sock_fd;
+
+	mutex_unlock(&priv->mutex);
+
+	ret = setsockopt(sock_fd, SOL_SOCKET, SO_REUSEADDR,
 			 (const void *)&yes, sizeof(yes));
 	if (ret == SOCKET_ERROR) {
 		ret = SOCK_ERRNO;
@@ -404,7 +411,7 @@ int conn_connect(struct conn_handle *conn, const char *addr,
 	}
 
 #ifdef __APPLE__
-	ret = setsockopt(priv->sock_fd, SOL_SOCKET, SO_NOSIGPIPE,
+	ret = setsockopt(sock_fd, SOL_SOCKET, SO_NOSIGPIPE,
 			 (const void *)&yes, sizeof(yes));
 	if (ret == SOCKET_ERROR) {
 		ret = SOCK_ERRNO;
@@ -412,13 +419,13 @@ int conn_connect(struct conn_handle *conn, const char *addr,
 	}
 #endif
 
-	ret = bind(priv->sock_fd, res->ai_addr, (socklen_t)res->ai_addrlen);
+	ret = bind(sock_fd, res->ai_addr, (socklen_t)res->ai_addrlen);
 	if (ret == SOCKET_ERROR) {
 		ret = SOCK_ERRNO;
 		goto conn_connect_free;
 	}
 
-	ret = connect(priv->sock_fd, res_remote->ai_addr,
+	ret = connect(sock_fd, res_remote->ai_addr,
 		      (socklen_t)res_remote->ai_addrlen);
 	if (ret == SOCKET_ERROR) {
 		ret = SOCK_ERRNO;
@@ -437,12 +444,16 @@ int conn_connect(struct conn_handle *conn, const char *addr,
 	return 0;
 
 conn_connect_free:
-	shutdown(priv->sock_fd, SHUT_RDWR);
+	mutex_lock(&priv->mutex);
 
-	closesocket(priv->sock_fd);
+	shutdown(sock_fd, SHUT_RDWR);
+
+	closesocket(sock_fd);
 
 	priv->sock_fd = INVALID_SOCKET;
 
+	mutex_unlock(&priv->mutex);
+
 conn_connect_free_early:
 	if (res_remote != NULL)
 		freeaddrinfo(res_remote);
diff --git a/src/proxy_conn.c b/src/proxy_conn.c
index 0d566e7..0f9bfc1 100644
--- a/src/proxy_conn.c
+++ b/src/proxy_conn.c
@@ -863,9 +863,13 @@ void proxy_conn_drop(struct proxy_conn_handle *pc)
 
 	mutex_lock_shared(&priv->mutex_client);
 
-	if (priv->conn_client != NULL)
+	if (priv->conn_client != NULL) {
 		conn_drop(priv->conn_client);
 
+		/* The worker may be waiting for the client's remote host */
+		conn_shutdown(&priv->conn_tcp);
+	}
+
 	mutex_unlock_shared(&priv->mutex_client);
 }
 
-- 
2.43.0


From 0e7a68e3daa6c8c2c7cc67e3d52f671c07ef32b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:46 +0000
Subject: [PATCH 32/40] fix: close an accepted socket which cannot be set up

If an option could not be set on an accepted socket, it stayed open in the
handle, and the next accept with that handle lost its descriptor.
---
 src/conn.c | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index 20285a1..9379c5a 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -284,6 +284,7 @@ int conn_accept(struct conn_handle *conn, struct conn_handle *accepted)
 {
 	struct conn_priv *priv = conn->priv;
 	struct conn_priv *apriv = accepted->priv;
+	int ret;
 
 #ifdef _WIN32
 	uint32_t bytes_returned;
@@ -317,29 +318,24 @@ int conn_accept(struct conn_handle *conn, struct conn_handle *accepted)
 		     sizeof(keepalive), NULL, 0, &bytes_returned,
 		     NULL, NULL) !=
 	    0)
-		/*! @TODO Close apriv->conn_fd */
-		return SOCK_ERRNO;
+		goto conn_accept_close;
 
 #else
 	if (setsockopt(apriv->conn_fd, SOL_SOCKET, SO_KEEPALIVE, &yes,
 		       sizeof(yes)) == SOCKET_ERROR)
-		/*! @TODO Close apriv->conn_fd */
-		return SOCK_ERRNO;
+		goto conn_accept_close;
 
 	if (setsockopt(apriv->conn_fd, SOL_TCP, TCP_KEEPIDLE, &ten_min,
 		       sizeof(ten_min)) == SOCKET_ERROR)
-		/*! @TODO Close apriv->conn_fd */
-		return SOCK_ERRNO;
+		goto conn_accept_close;
 
 	if (setsockopt(apriv->conn_fd, SOL_TCP, TCP_KEEPINTVL, &twelve_sec,
 		       sizeof(twelve_sec)) == SOCKET_ERROR)
-		/*! @TODO Close apriv->conn_fd */
-		return SOCK_ERRNO;
+		goto conn_accept_close;
 
 	if (setsockopt(apriv->conn_fd, SOL_TCP, TCP_KEEPCNT, &ten,
 		       sizeof(ten)) == SOCKET_ERROR)
-		/*! @TODO Close apriv->conn_fd */
-		return SOCK_ERRNO;
+		goto conn_accept_close;
 
 #endif
 
@@ -350,6 +346,14 @@ int conn_accept(struct conn_handle *conn, struct conn_handle *accepted)
 	mutex_unlock(&apriv->mutex);
 
 	return 0;
+
+conn_accept_close:
+	ret = SOCK_ERRNO;
+
+	closesocket(apriv->conn_fd);
+	apriv->conn_fd = INVALID_SOCKET;
+
+	return ret;
 }
 
 int conn_connect(struct conn_handle *conn, const char *addr,
-- 
2.43.0


From fbe1da9ccd3370eaf887a4ec5d794ddb458b99ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:55 +0000
Subject: [PATCH 33/40] fix: refuse numbers which are out of range in the
 configuration

The port and the connection timeout wrapped around silently, so that
Port=70000 opened port 4464 and ConnectionTimeout=-1 was accepted.
---
 src/conf.c | 51 ++++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 48 insertions(+), 3 deletions(-)

diff --git a/src/conf.c b/src/conf.c
index 5e58409..6c4bfd1 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -80,6 +80,19 @@ static int conf_parse_pair(const char *key, size_t key_len,
 			   const char *val, size_t val_len,
 			   struct proxy_conf *conf, struct log_handle *log);
 
+/*!
+ * @brief Parse a decimal number
+ *
+ * @param[in] val Text of the number
+ * @param[in] val_len Length of val in characters
+ * @param[in] max Largest number which is acceptable
+ * @param[out] num Resulting number
+ *
+ * @returns 0 on success, negative ERRNO value on failure
+ */
+static int conf_parse_number(const char *val, size_t val_len, uint32_t max,
+			     uint32_t *num);
+
 /*!
  * @brief Parse a configuration file
  *
@@ -201,18 +214,21 @@ static int conf_parse_pair(const char *key, size_t key_len,
 			   const char *val, size_t val_len,
 			   struct proxy_conf *conf, struct log_handle *log)
 {
-	char dummy[2];
+	uint32_t num;
 
 	switch (key_len) {
 	case 4:
 		if (strncmp(key, "Port", key_len) == 0) {
-			if (sscanf(val, "%hu%1s", &conf->port, dummy) != 1) {
+			if (conf_parse_number(val, val_len, UINT16_MAX,
+					      &num) < 0) {
 				log_printf(log, LOG_LEVEL_ERROR,
 					   "Invalid configuration value for 'Port': '%.*s'\n",
 					   (int)val_len, val);
 
 				return -EINVAL;
 			}
+
+			conf->port = (uint16_t)num;
 		}
 
 		break;
@@ -333,13 +349,16 @@ static int conf_parse_pair(const char *key, size_t key_len,
 		break;
 	case 17:
 		if (strncmp(key, "ConnectionTimeout", key_len) == 0) {
-			if (sscanf(val, "%u%1s", &conf->connection_timeout, dummy) != 1) {
+			if (conf_parse_number(val, val_len, UINT32_MAX,
+					      &num) < 0) {
 				log_printf(log, LOG_LEVEL_ERROR,
 					   "Invalid configuration value for 'ConnectionTimeout': '%.*s'\n",
 					   (int)val_len, val);
 
 				return -EINVAL;
 			}
+
+			conf->connection_timeout = num;
 		}
 
 		break;
@@ -442,6 +461,32 @@ bind_addr_ext_add_exit:
 	return 0;
 }
 
+static int conf_parse_number(const char *val, size_t val_len, uint32_t max,
+			     uint32_t *num)
+{
+	uint32_t so_far = 0;
+	uint32_t digit;
+	size_t i;
+
+	if (val_len == 0)
+		return -EINVAL;
+
+	for (i = 0; i < val_len; i++) {
+		if (val[i] < '0' || val[i] > '9')
+			return -EINVAL;
+
+		digit = (uint32_t)(val[i] - '0');
+		if (so_far > (max - digit) / 10)
+			return -EINVAL;
+
+		so_far = so_far * 10 + digit;
+	}
+
+	*num = so_far;
+
+	return 0;
+}
+
 static int conf_parse_stream(FILE *stream, struct proxy_conf *conf,
 			     struct log_handle *log)
 {
-- 
2.43.0


From 47c465b1415808483b14b7ac47449f6e5564ed87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:04 +0000
Subject: [PATCH 34/40] fix: treat an empty password in the configuration as
 absent

As documented for struct proxy_conf, and as for every other value, so
that 'Password=' does not open a proxy which anybody can use.
---
 src/conf.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/conf.c b/src/conf.c
index 6c4bfd1..ee7dc9a 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -237,6 +237,11 @@ static int conf_parse_pair(const char *key, size_t key_len,
 			if (conf->password != NULL)
 				free(conf->password);
 
+			if (val_len == 0) {
+				conf->password = NULL;
+				break;
+			}
+
 			conf->password = malloc(val_len + 1);
 			if (conf->password == NULL)
 				return -ENOMEM;
-- 
2.43.0


From b7addb829a7ca8b06657e9361d68c9ccfb695d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 35/40] fix: do not lose an additional address after a leading
 comma

The comma was not counted, so that the last address of the list was
dropped without a word.
---
 src/conf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conf.c b/src/conf.c
index ee7dc9a..07f431b 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -418,7 +418,7 @@ static int conf_parse_pair(const char *key, size_t key_len,
 			if (val_len == 0)
 				break;
 
-			for (i = 1; i < val_len; i++)
+			for (i = 0; i < val_len; i++)
 				if (val[i] == ',')
 					conf->bind_addr_ext_add_len++;
 
-- 
2.43.0


From e839102a4178e5c1d83b32cfdd33fde62ffbeab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:34 +0000
Subject: [PATCH 36/40] fix: handle signals in a thread of the daemon

Shutting down the proxy takes locks, logs and talks to other threads, none of
which a signal handler may do: a signal at the wrong moment hung or crashed
the daemon, and one which did not happen to interrupt accept() ended it with
'Message processing failure'.
---
 src/proxyd.c | 196 +++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 152 insertions(+), 44 deletions(-)

diff --git a/src/proxyd.c b/src/proxyd.c
index bf83790..c21a10b 100644
--- a/src/proxyd.c
+++ b/src/proxyd.c
@@ -54,6 +54,7 @@
 #  include <io.h>
 #  include <windows.h>
 #else
+#  include <pthread.h>
 #  include <signal.h>
 #  include <sys/stat.h>
 #endif
@@ -111,6 +112,26 @@ static struct proxy_handle ph;
 /*! Program termination indicator */
 static uint8_t sentinel;
 
+#ifndef _WIN32
+/*! Proxy shutdown indicator */
+static uint8_t stopping;
+
+/*! Indicates that ::signal_thread is no longer needed */
+static uint8_t signals_done;
+
+/*! Protects ::sentinel, ::stopping and ::signals_done */
+static pthread_mutex_t signal_mutex = PTHREAD_MUTEX_INITIALIZER;
+
+/*! Signalled when ::sentinel is set */
+static pthread_cond_t signal_cond = PTHREAD_COND_INITIALIZER;
+
+/*! Signals which are handled by ::signal_thread */
+static sigset_t signal_set;
+
+/*! Thread which waits for signals */
+static pthread_t signal_thread;
+#endif
+
 #ifdef _WIN32
 /*!
  * @brief Callback which is used to shut down the EchoLink proxy
@@ -122,15 +143,37 @@ static uint8_t sentinel;
 static BOOL WINAPI graceful_shutdown(DWORD ctrl_type);
 #else
 /*!
- * @brief Callback which is used to shut down the EchoLink proxy
+ * @brief Shut down the EchoLink proxy because of a signal
  *
  * @param[in] signum Signal number
- * @param[in] info Extra signal information
- * @param[in] ptr Signal handler context
  */
-static void graceful_shutdown(int signum, siginfo_t *info, void *ptr);
+static void graceful_shutdown(int signum);
+
+/*!
+ * @brief Wait for signals and act on them
+ *
+ * Nothing which has to be done to shut down the proxy may be done by a signal
+ * handler, so the signals are blocked and this thread waits for them instead.
+ *
+ * @param[in] arg Not used
+ *
+ * @returns NULL
+ */
+static void *signal_run(void *arg);
 #endif
 
+/*!
+ * @brief Determine if the proxy has been requested to shut down
+ *
+ * @returns 1 if it has been requested to shut down, 0 if not
+ */
+static int shutdown_requested(void);
+
+/*!
+ * @brief Wait until the program has been requested to terminate
+ */
+static void wait_for_termination(void);
+
 /*!
  * @brief Main entry point for the EchoLink Proxy daemon executable
  *
@@ -181,34 +224,81 @@ static BOOL WINAPI graceful_shutdown(DWORD ctrl_type)
 	return FALSE;
 }
 #else
-/*! @TODO Make this async-signal-safe */
-static void graceful_shutdown(int signum, siginfo_t *info, void *ptr)
+static void graceful_shutdown(int signum)
 {
 	proxy_log(&ph, LOG_LEVEL_INFO, "Caught signal\n");
-	(void)info;
-	(void)ptr;
 
+	pthread_mutex_lock(&signal_mutex);
+	stopping = 1;
 	if (signum == SIGTERM || signum == SIGINT)
 		sentinel = 1;
+	pthread_cond_signal(&signal_cond);
+	pthread_mutex_unlock(&signal_mutex);
 
-	if (signum == SIGTERM || signum == SIGINT || signum == SIGUSR1)
-		proxy_shutdown(&ph);
+	proxy_shutdown(&ph);
+}
+
+static void *signal_run(void *arg)
+{
+	int signum;
+	int done;
+
+	(void)arg;
+
+	do {
+		if (sigwait(&signal_set, &signum) != 0)
+			break;
+
+		pthread_mutex_lock(&signal_mutex);
+		done = signals_done;
+		pthread_mutex_unlock(&signal_mutex);
+
+		if (!done)
+			graceful_shutdown(signum);
+	} while (!done && signum == SIGUSR1);
+
+	return NULL;
+}
+#endif
+
+static int shutdown_requested(void)
+{
+	int ret;
+
+#ifdef _WIN32
+	ret = sentinel;
+#else
+	pthread_mutex_lock(&signal_mutex);
+	ret = stopping;
+	pthread_mutex_unlock(&signal_mutex);
+#endif
+
+	return ret;
 }
+
+static void wait_for_termination(void)
+{
+#ifdef _WIN32
+	while (!sentinel)
+		Sleep(50);
+#else
+	pthread_mutex_lock(&signal_mutex);
+	while (!sentinel)
+		pthread_cond_wait(&signal_cond, &signal_mutex);
+	pthread_mutex_unlock(&signal_mutex);
 #endif
+}
 
 int main(int argc, const char * const argv[])
 {
 	struct proxy_opts opts;
 
 #ifndef _WIN32
-	struct sigaction sigact;
+	uint8_t signals_started = 0;
 #endif
 	int ret;
 
 	memset(&opts, 0x0, sizeof(opts));
-#ifndef _WIN32
-	memset(&sigact, 0x0, sizeof(sigact));
-#endif
 	memset(&ph, 0x0, sizeof(ph));
 
 	parse_args(argc, argv, &opts);
@@ -220,15 +310,7 @@ int main(int argc, const char * const argv[])
 #endif
 	}
 
-#ifndef _WIN32
-	/* Handle SIGINT/SIGTERM */
-	sigact.sa_sigaction = graceful_shutdown;
-	sigact.sa_flags |= SA_SIGINFO;
-
-	sigaction(SIGINT, &sigact, NULL);
-	sigaction(SIGTERM, &sigact, NULL);
-	sigaction(SIGUSR1, &sigact, NULL);
-#else
+#ifdef _WIN32
 	if (!SetConsoleCtrlHandler(graceful_shutdown, TRUE))
 		fprintf(stderr, "Failed to set signal handler (%d)\n",
 			GetLastError());
@@ -373,6 +455,18 @@ int main(int argc, const char * const argv[])
 		}
 	}
 
+#ifndef _WIN32
+	/* Every thread started from here on leaves SIGINT/SIGTERM/SIGUSR1 to
+	 * the signal thread. Before the proxy is started there is nothing to
+	 * shut down, so until then they end the process.
+	 */
+	sigemptyset(&signal_set);
+	sigaddset(&signal_set, SIGINT);
+	sigaddset(&signal_set, SIGTERM);
+	sigaddset(&signal_set, SIGUSR1);
+	pthread_sigmask(SIG_BLOCK, &signal_set, NULL);
+#endif
+
 	ret = proxy_start(&ph);
 	if (ret < 0) {
 		proxy_log(&ph, LOG_LEVEL_FATAL,
@@ -381,40 +475,54 @@ int main(int argc, const char * const argv[])
 		goto proxyd_exit;
 	}
 
+#ifndef _WIN32
+	ret = -pthread_create(&signal_thread, NULL, signal_run, NULL);
+	if (ret < 0) {
+		proxy_log(&ph, LOG_LEVEL_FATAL,
+			  "Failed to start signal thread (%d): %s\n",
+			  -ret, strerror(-ret));
+		goto proxyd_exit;
+	}
+	signals_started = 1;
+#endif
+
 	proxy_log(&ph, LOG_LEVEL_INFO, "Ready.\n");
 
 	/* Main dispatch loop */
-	while (ret == 0 && sentinel == 0) {
+	while (ret == 0) {
 		proxy_log(&ph, LOG_LEVEL_DEBUG,
 			  "Starting a processing run...\n");
 		ret = proxy_process(&ph);
-		if (ret < 0) {
-			switch (ret) {
-			case -EINTR:
-				ret = 0;
-
-				/*! @TODO Something better than a busy loop */
-				while (!sentinel) {
-#ifdef _WIN32
-					Sleep(50);
-#else
-					usleep(50000);
-#endif
-				}
 
-				break;
-			default:
-				proxy_log(&ph, LOG_LEVEL_FATAL,
-					  "Message processing failure (%d): %s\n",
-					  -ret, strerror(-ret));
-				break;
-			}
+		/* No more clients can be accepted, but those which are
+		 * connected already may stay until the program terminates
+		 */
+		if (shutdown_requested()) {
+			wait_for_termination();
+			ret = 0;
+			break;
 		}
+
+		if (ret < 0)
+			proxy_log(&ph, LOG_LEVEL_FATAL,
+				  "Message processing failure (%d): %s\n",
+				  -ret, strerror(-ret));
 	}
 
 	proxy_log(&ph, LOG_LEVEL_INFO, "Shutting down...\n");
 
 proxyd_exit:
+#ifndef _WIN32
+	if (signals_started) {
+		pthread_mutex_lock(&signal_mutex);
+		signals_done = 1;
+		pthread_mutex_unlock(&signal_mutex);
+
+		pthread_kill(signal_thread, SIGUSR1);
+		pthread_join(signal_thread, NULL);
+	}
+#endif
+
 	proxy_free(&ph);
 
 #ifdef _WIN32
-- 
2.43.0


From c8d637d5b6e0f3ed4fdce43bb8fd2b5036fc79b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:37 +0000
Subject: [PATCH 37/40] fix: keep the daemon running when a client cannot be
 accepted

---
 src/proxyd.c | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/proxyd.c b/src/proxyd.c
index c21a10b..72b42bc 100644
--- a/src/proxyd.c
+++ b/src/proxyd.c
@@ -503,10 +503,39 @@ int main(int argc, const char * const argv[])
 			break;
 		}
 
-		if (ret < 0)
+		if (ret >= 0)
+			continue;
+
+		switch (ret) {
+		case -EBADF:
+		case -EFAULT:
+		case -EINVAL:
+#ifdef ENOTSOCK
+		case -ENOTSOCK:
+#endif
+#ifdef EOPNOTSUPP
+		case -EOPNOTSUPP:
+#endif
 			proxy_log(&ph, LOG_LEVEL_FATAL,
 				  "Message processing failure (%d): %s\n",
 				  -ret, strerror(-ret));
+			break;
+		default:
+			/* The client gave up or there is a shortage of memory,
+			 * descriptors or the like. Neither affects the clients
+			 * which are already connected.
+			 */
+			proxy_log(&ph, LOG_LEVEL_WARN,
+				  "Failed to accept a client (%d): %s\n",
+				  -ret, strerror(-ret));
+			ret = 0;
+#ifdef _WIN32
+			Sleep(50);
+#else
+			usleep(50000);
+#endif
+			break;
+		}
 	}
 
 	proxy_log(&ph, LOG_LEVEL_INFO, "Shutting down...\n");
-- 
2.43.0


From ebba55e7e531895cd43690452a315955369c8361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:39 +0000
Subject: [PATCH 38/40] fix: do not leave the standard streams of the daemon
 closed

The next sockets took their descriptors, and what the daemon printed to its
standard output ended up in the connection of a client.
---
 src/proxyd.c | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/proxyd.c b/src/proxyd.c
index 72b42bc..752e88d 100644
--- a/src/proxyd.c
+++ b/src/proxyd.c
@@ -54,9 +54,11 @@
 #  include <io.h>
 #  include <windows.h>
 #else
+#  include <fcntl.h>
 #  include <pthread.h>
 #  include <signal.h>
 #  include <sys/stat.h>
+#  include <unistd.h>
 #endif
 
 #include "openelp/openelp.h"
@@ -360,6 +362,7 @@ int main(int argc, const char * const argv[])
 	if (!opts.foreground) {
 		pid_t pid;
 		pid_t sid;
+		int null_fd;
 
 		pid = fork();
 
@@ -414,9 +417,23 @@ int main(int argc, const char * const argv[])
 			goto proxyd_exit;
 		}
 
-		close(STDIN_FILENO);
-		close(STDOUT_FILENO);
-		close(STDERR_FILENO);
+		/* If these were only closed, the next sockets would take
+		 * their place and anything printed would end up in them
+		 */
+		null_fd = open("/dev/null", O_RDWR);
+		if (null_fd < 0 || dup2(null_fd, STDIN_FILENO) < 0 ||
+		    dup2(null_fd, STDOUT_FILENO) < 0 ||
+		    dup2(null_fd, STDERR_FILENO) < 0) {
+			ret = -errno;
+			proxy_log(&ph, LOG_LEVEL_FATAL,
+				  "Failed to detach from the terminal (%d): %s\n",
+				  -ret, strerror(-ret));
+			if (null_fd > STDERR_FILENO)
+				close(null_fd);
+			goto proxyd_exit;
+		}
+		if (null_fd > STDERR_FILENO)
+			close(null_fd);
 	} else
 #endif
 	{
-- 
2.43.0


From 9a57a7f0d653128ec4c663e51dcca9621f22de57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:55 +0000
Subject: [PATCH 39/40] fix: resolve a remote host to addresses the connecting
 socket can use

conn_connect always creates an IPv4 socket, but resolved the remote host to
addresses of any family and used the first. A host name which has an IPv6
address as well therefore could not be connected to (-EAFNOSUPPORT), although
the host can be reached over IPv4.
---
 src/conn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conn.c b/src/conn.c
index 9379c5a..31c25f5 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -385,7 +385,7 @@ int conn_connect(struct conn_handle *conn, const char *addr,
 
 	memset(&hints, 0x0, sizeof(hints));
 
-	hints.ai_family = AF_UNSPEC;
+	hints.ai_family = res->ai_family;
 	hints.ai_socktype = SOCK_STREAM;
 
 	ret = getaddrinfo(addr, port, &hints, &res_remote);
-- 
2.43.0


From cef12e8036886cf5520b8e9d37e98500363d7e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:21 +0000
Subject: [PATCH 40/40] fix: refuse a list of more additional addresses than
 can be counted

The number of AdditionalExternalBindAddresses wrapped around at 65536 and
the proxy used part of the list.
---
 src/conf.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/conf.c b/src/conf.c
index 07f431b..ffbe671 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -418,11 +418,18 @@ static int conf_parse_pair(const char *key, size_t key_len,
 			if (val_len == 0)
 				break;
 
-			for (i = 0; i < val_len; i++)
+			for (i = 0, j = 1; i < val_len; i++)
 				if (val[i] == ',')
-					conf->bind_addr_ext_add_len++;
+					j++;
+
+			if (j > UINT16_MAX) {
+				log_printf(log, LOG_LEVEL_ERROR,
+					   "Too many values for 'AdditionalExternalBindAddresses'\n");
+
+				return -EINVAL;
+			}
 
-			conf->bind_addr_ext_add_len++;
+			conf->bind_addr_ext_add_len = (uint16_t)j;
 
 			conf->bind_addr_ext_add = calloc(
 				conf->bind_addr_ext_add_len,
-- 
2.43.0

