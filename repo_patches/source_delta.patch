From de3ef4d39a4a9712d4b8ea4442926dd104c38558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:54 +0000
Subject: [PATCH 01/47] fix: do not crash when a queue of one buffer is full
 while its buffer is being processed

---
 src/queue.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/queue.c b/src/queue.c
index 0fc4146..d488ce7 100644
--- a/src/queue.c
+++ b/src/queue.c
@@ -126,6 +126,11 @@ int queue_put(const float complex *buffer, const size_t len, queue *queue) {
         // overwrite last node
         to_fill = queue->last_filled_node;
         fprintf(stderr, "<3>queue is full\n");
+        if (to_fill == NULL) {
+            // the only node is being processed, nothing to overwrite
+            pthread_mutex_unlock(&queue->mutex);
+            return -1;
+        }
     } else {
         // remove from free nodes pool
         to_fill = queue->first_free_node;
-- 
2.43.0


From 70a7d3eece3bf62eac47cfbbbbc9b90dab3a4607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:34 +0000
Subject: [PATCH 02/47] fix: close the connection to sdr server exactly once

sdr_server_client_stop closed the socket while another thread could be
reading from it (a later client could get the same descriptor), the socket
was leaked if the request was rejected
---
 src/sdr/sdr_server_client.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/sdr/sdr_server_client.c b/src/sdr/sdr_server_client.c
index bff14d9..5e15d20 100644
--- a/src/sdr/sdr_server_client.c
+++ b/src/sdr/sdr_server_client.c
@@ -27,6 +27,7 @@ int sdr_server_client_create_inner(uint32_t id, char *addr, int port, int read_t
     *result = (struct sdr_server_client_t) {0};
 
     result->id = id;
+    result->client_socket = -1;
     result->output_len = max_output_buffer_length;
     result->output = malloc(sizeof(float complex) * result->output_len);
     if (result->output == NULL) {
@@ -46,7 +47,6 @@ int sdr_server_client_create_inner(uint32_t id, char *addr, int port, int read_t
     tv.tv_sec = read_timeout_seconds;
     tv.tv_usec = 0;
     if (setsockopt(client_socket, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv)) {
-        close(client_socket);
         perror("setsockopt - SO_RCVTIMEO");
         sdr_server_client_destroy(result);
         return -1;
@@ -58,7 +58,6 @@ int sdr_server_client_create_inner(uint32_t id, char *addr, int port, int read_t
     address.sin_port = htons(port);
     int code = connect(client_socket, (struct sockaddr *) &address, sizeof(address));
     if (code != 0) {
-        close(client_socket);
         fprintf(stderr, "<3>[%d] connection with sdr server failed: %d\n", result->id, code);
         sdr_server_client_destroy(result);
         return -1;
@@ -208,7 +207,9 @@ void sdr_server_client_stop(void *plugin) {
         }
     }
     fprintf(stdout, "[%d] disconnected from sdr server..\n", client->id);
-    close(client->client_socket);
+    // another thread might be reading from this socket
+    // wake it up here, the descriptor is closed in sdr_server_client_destroy
+    shutdown(client->client_socket, SHUT_RDWR);
 }
 
 void sdr_server_client_destroy(void *plugin) {
@@ -216,6 +217,9 @@ void sdr_server_client_destroy(void *plugin) {
         return;
     }
     sdr_server_client *client = (sdr_server_client *) plugin;
+    if (client->client_socket != -1) {
+        close(client->client_socket);
+    }
     if (client->output != NULL) {
         free(client->output);
     }
-- 
2.43.0


From 7f15792849ccbb11a02ee5b6c69cf84b3cad6513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:34 +0000
Subject: [PATCH 03/47] fix: do not wait forever for sdr server to stop the
 stream

If sdr server ignored the shutdown request and continued streaming, then
the client was never released. Also request the shutdown only once: every
pair of stream bytes received triggered one more request
---
 src/sdr/sdr_server_client.c | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/sdr/sdr_server_client.c b/src/sdr/sdr_server_client.c
index 5e15d20..58bd0a9 100644
--- a/src/sdr/sdr_server_client.c
+++ b/src/sdr/sdr_server_client.c
@@ -6,7 +6,7 @@
 #include <stdio.h>
 #include <unistd.h>
 #include <string.h>
-#include <stdbool.h>
+#include <time.h>
 
 #include "../tcp_utils.h"
 #include "sdr_server_client.h"
@@ -14,6 +14,7 @@
 struct sdr_server_client_t {
     int client_socket;
     uint32_t id;
+    int read_timeout_seconds;
 
     float complex *output;
     size_t output_len;
@@ -28,6 +29,7 @@ int sdr_server_client_create_inner(uint32_t id, char *addr, int port, int read_t
 
     result->id = id;
     result->client_socket = -1;
+    result->read_timeout_seconds = read_timeout_seconds;
     result->output_len = max_output_buffer_length;
     result->output = malloc(sizeof(float complex) * result->output_len);
     if (result->output == NULL) {
@@ -191,20 +193,15 @@ void sdr_server_client_stop(void *plugin) {
         return;
     }
     sdr_server_client *client = (sdr_server_client *) plugin;
-    while (true) {
-        struct sdr_server_message_header header;
-        header.type = SDR_SERVER_TYPE_SHUTDOWN;
-        header.protocol_version = SDR_SERVER_PROTOCOL_VERSION;
-        int code = tcp_utils_write_data((uint8_t *) &header, sizeof(struct sdr_server_message_header), client->client_socket);
-        // sdr server was already disconnected
-        if (code != 0) {
-            break;
-        }
-        // if not, then wait until sdr server gracefully cleanup and shutdown current freq band
+    struct sdr_server_message_header header;
+    header.type = SDR_SERVER_TYPE_SHUTDOWN;
+    header.protocol_version = SDR_SERVER_PROTOCOL_VERSION;
+    int code = tcp_utils_write_data((uint8_t *) &header, sizeof(struct sdr_server_message_header), client->client_socket);
+    // wait until sdr server gracefully cleanup and shutdown current freq band
+    // but not forever: sdr server might ignore the request and continue streaming
+    time_t deadline = time(NULL) + client->read_timeout_seconds;
+    while (code == 0 && time(NULL) <= deadline) {
         code = tcp_utils_read_data(&header, sizeof(struct sdr_server_message_header), client->client_socket);
-        if (code != 0) {
-            break;
-        }
     }
     fprintf(stdout, "[%d] disconnected from sdr server..\n", client->id);
     // another thread might be reading from this socket
-- 
2.43.0


From 2dac942c9fd6880b95379ad8047fc20d3a8ce28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:34 +0000
Subject: [PATCH 04/47] fix: do not lose samples when sdr server is slow

Everything received before the read timeout was discarded, and if it was
not a whole number of samples then the rest of the stream was misaligned
---
 src/sdr/sdr_server_client.c | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/sdr/sdr_server_client.c b/src/sdr/sdr_server_client.c
index 58bd0a9..86760c4 100644
--- a/src/sdr/sdr_server_client.c
+++ b/src/sdr/sdr_server_client.c
@@ -18,6 +18,10 @@ struct sdr_server_client_t {
 
     float complex *output;
     size_t output_len;
+
+    // bytes of the incomplete sample
+    size_t remainder;
+    size_t remainder_offset;
 };
 
 int sdr_server_client_create_inner(uint32_t id, char *addr, int port, int read_timeout_seconds, uint32_t max_output_buffer_length, sdr_server_client **client) {
@@ -150,11 +154,22 @@ int sdr_server_client_read_response(struct sdr_server_response **response, sdr_s
 
 int sdr_server_client_read_stream(float complex **output, size_t *output_len, void *plugin) {
     sdr_server_client *client = (sdr_server_client *) plugin;
+    // previous read might end in the middle of the sample
+    if (client->remainder != 0) {
+        memmove(client->output, (char *) client->output + client->remainder_offset, client->remainder);
+    }
     size_t actually_read = 0;
-    int code = tcp_utils_read_data_partially(client->output, sizeof(float complex) * client->output_len, &actually_read, client->client_socket);
-    if (actually_read != 0) {
+    int code = tcp_utils_read_data_partially((char *) client->output + client->remainder, sizeof(float complex) * client->output_len - client->remainder, &actually_read, client->client_socket);
+    actually_read += client->remainder;
+    client->remainder = actually_read % sizeof(float complex);
+    client->remainder_offset = actually_read - client->remainder;
+    if (client->remainder_offset != 0) {
         *output = client->output;
-        *output_len = actually_read / sizeof(float complex);
+        *output_len = client->remainder_offset / sizeof(float complex);
+        // timeout happened, but some samples were received
+        if (code < -1) {
+            code = 0;
+        }
     } else {
         *output = NULL;
         *output_len = 0;
-- 
2.43.0


From 9d6b301056b33ac983b9095f72759191b82d9994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:34 +0000
Subject: [PATCH 05/47] fix: refuse frequencies sdr server protocol cannot
 express

They were silently truncated to 32 bits and a wrong band was requested
---
 src/sdr/sdr_server_client.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sdr/sdr_server_client.c b/src/sdr/sdr_server_client.c
index 86760c4..13c33a5 100644
--- a/src/sdr/sdr_server_client.c
+++ b/src/sdr/sdr_server_client.c
@@ -75,6 +75,12 @@ int sdr_server_client_create_inner(uint32_t id, char *addr, int port, int read_t
 }
 
 int sdr_server_client_create(uint32_t id, struct sdr_rx *rx, char *addr, int port, int read_timeout_seconds, uint32_t max_output_buffer_length, sdr_device **output) {
+    // sdr server supports 32bit frequencies only
+    uint64_t center_freq = rx->rx_center_freq + rx->rx_offset;
+    if (center_freq > UINT32_MAX || rx->rx_center_freq > UINT32_MAX || rx->rx_sampling_freq > UINT32_MAX) {
+        fprintf(stderr, "<3>[%d] frequency is not supported by sdr server\n", id);
+        return -1;
+    }
     sdr_server_client *client = NULL;
     int code = sdr_server_client_create_inner(id, addr, port, read_timeout_seconds, max_output_buffer_length, &client);
     if (code != 0) {
@@ -82,7 +88,7 @@ int sdr_server_client_create(uint32_t id, struct sdr_rx *rx, char *addr, int por
     }
 
     struct sdr_server_request req;
-    req.center_freq = rx->rx_center_freq + rx->rx_offset;
+    req.center_freq = center_freq;
     req.band_freq = rx->rx_center_freq;
     req.destination = SDR_SERVER_REQUEST_DESTINATION_SOCKET;
     req.sampling_rate = rx->rx_sampling_freq;
-- 
2.43.0


From 6d70978a44e3864363e7b273ef2e70b62f32bbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:34 +0000
Subject: [PATCH 06/47] fix: memory leak when a request is not received fully

---
 src/api_utils.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/api_utils.c b/src/api_utils.c
index 92b8d92..2345f9d 100644
--- a/src/api_utils.c
+++ b/src/api_utils.c
@@ -47,6 +47,7 @@ int api_utils_read_tx_request(int socket, const struct message_header *header, s
     }
     int code = tcp_utils_read_data(buffer, header->message_length, socket);
     if (code != 0) {
+        free(buffer);
         return -1;
     }
     TxRequest *result = tx_request__unpack(NULL, header->message_length, buffer);
@@ -68,6 +69,7 @@ int api_utils_read_rx_request(int socket, const struct message_header *header, s
     }
     int code = tcp_utils_read_data(buffer, header->message_length, socket);
     if (code != 0) {
+        free(buffer);
         return -1;
     }
     RxRequest *result = rx_request__unpack(NULL, header->message_length, buffer);
-- 
2.43.0


From 4e31e8a9cb8ea2438524ff97af4fffb3d4e6c1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:34 +0000
Subject: [PATCH 07/47] fix: continue writing after a signal

---
 src/tcp_utils.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tcp_utils.c b/src/tcp_utils.c
index 6fee683..063a910 100644
--- a/src/tcp_utils.c
+++ b/src/tcp_utils.c
@@ -9,6 +9,9 @@ int tcp_utils_write_data(uint8_t *buffer, size_t total_len_bytes, int client_soc
     while (left > 0) {
         ssize_t written = write(client_socket, buffer + (total_len_bytes - left), left);
         if (written < 0) {
+            if (errno == EINTR) {
+                continue;
+            }
             return -1;
         }
         left -= written;
-- 
2.43.0


From 48688ae8ed1749431d6887c60c8f8144d6c63c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:07 +0000
Subject: [PATCH 08/47] fix: complete receiver setup before its threads can see
 it

The client thread, sdr worker and dsp worker were started while the
acceptor thread was still connecting them: a client that disconnected
early left dangling workers, demodulated data could be sent before the
response, samples received before the dsp worker was attached were lost,
failures closed the client socket twice, and a stream that had already
ended could be shared with new clients. Transmitter and dump file were
released after the client had been disconnected.
---
 src/dsp_worker.c |  19 +++---
 src/dsp_worker.h |   3 +
 src/sdr_worker.c |  40 ++++++-----
 src/sdr_worker.h |   5 +-
 src/tcp_server.c | 168 ++++++++++++++++++++++++++++-------------------
 5 files changed, 141 insertions(+), 94 deletions(-)

diff --git a/src/dsp_worker.c b/src/dsp_worker.c
index 5f39988..f9231aa 100644
--- a/src/dsp_worker.c
+++ b/src/dsp_worker.c
@@ -18,6 +18,7 @@ struct dsp_worker_t {
     doppler *dopp;
     queue *queue;
     pthread_t dsp_thread;
+    bool started;
     FILE *rx_dump_file;
     FILE *demod_file;
     DemodDestination demod_destination;
@@ -183,16 +184,16 @@ int dsp_worker_create(uint32_t id, int client_socket, struct server_config *serv
     }
     result->queue = client_queue;
 
-    // start processing
-    pthread_t dsp_thread;
-    code = pthread_create(&dsp_thread, NULL, &dsp_worker_callback, result);
+    *worker = result;
+    return 0;
+}
+
+int dsp_worker_start(dsp_worker *worker) {
+    int code = pthread_create(&worker->dsp_thread, NULL, &dsp_worker_callback, worker);
     if (code != 0) {
-        dsp_worker_destroy(result);
         return -1;
     }
-    result->dsp_thread = dsp_thread;
-
-    *worker = result;
+    worker->started = true;
     return 0;
 }
 
@@ -206,7 +207,9 @@ void dsp_worker_destroy(void *data) {
         interrupt_waiting_the_data(worker->queue);
     }
     // wait until thread terminates and only then destroy the worker
-    pthread_join(worker->dsp_thread, NULL);
+    if (worker->started) {
+        pthread_join(worker->dsp_thread, NULL);
+    }
     if (worker->queue != NULL) {
         destroy_queue(worker->queue);
     }
diff --git a/src/dsp_worker.h b/src/dsp_worker.h
index e264118..39ec80d 100644
--- a/src/dsp_worker.h
+++ b/src/dsp_worker.h
@@ -21,4 +21,7 @@ void dsp_worker_put(float complex *output, size_t output_len, dsp_worker *worker
 
 int dsp_worker_create(uint32_t id, int client_socket, struct server_config *config, struct RxRequest *req, dsp_worker **result);
 
+// everything put before the start is kept in the queue
+int dsp_worker_start(dsp_worker *worker);
+
 #endif //SDR_MODEM_DSP_WORKER_H
diff --git a/src/sdr_worker.c b/src/sdr_worker.c
index a05f742..91a35ac 100644
--- a/src/sdr_worker.c
+++ b/src/sdr_worker.c
@@ -5,6 +5,7 @@
 #include <stdlib.h>
 #include <errno.h>
 #include <stdio.h>
+#include <stdatomic.h>
 
 #include "sdr/sdr_server_client.h"
 
@@ -14,6 +15,9 @@ struct sdr_worker_t {
     uint32_t id;
     linked_list *dsp_configs;
     pthread_t sdr_thread;
+    bool started;
+    // no more data expected
+    atomic_bool ended;
     pthread_mutex_t mutex;
 };
 
@@ -49,6 +53,7 @@ static void *sdr_worker_callback(void *arg) {
     //this would close all client sockets
     //and initiate cascade shutdown of sdr and dsp workers
     pthread_mutex_lock(&worker->mutex);
+    worker->ended = true;
     linked_list_foreach(NULL, &dsp_worker_shutdown, worker->dsp_configs);
     pthread_mutex_unlock(&worker->mutex);
     return (void *) 0;
@@ -68,15 +73,16 @@ int sdr_worker_create(uint32_t id, struct sdr_rx *rx, sdr_device *rx_device, sdr
     result->mutex = (pthread_mutex_t) PTHREAD_MUTEX_INITIALIZER;
     result->rx_device = rx_device;
 
-    pthread_t sdr_thread;
-    int code = pthread_create(&sdr_thread, NULL, &sdr_worker_callback, result);
+    *worker = result;
+    return 0;
+}
+
+int sdr_worker_start(sdr_worker *worker) {
+    int code = pthread_create(&worker->sdr_thread, NULL, &sdr_worker_callback, worker);
     if (code != 0) {
-        sdr_worker_destroy(result);
         return code;
     }
-    result->sdr_thread = sdr_thread;
-
-    *worker = result;
+    worker->started = true;
     return 0;
 }
 
@@ -86,7 +92,8 @@ bool sdr_worker_find_closest(void *id, void *data) {
     }
     struct sdr_rx *rx = (struct sdr_rx *) id;
     sdr_worker *worker = (sdr_worker *) data;
-    if (worker->rx->rx_center_freq == rx->rx_center_freq &&
+    if (!worker->ended &&
+        worker->rx->rx_center_freq == rx->rx_center_freq &&
         worker->rx->rx_sampling_freq >= rx->rx_sampling_freq &&
         worker->rx->rx_offset == rx->rx_offset) {
         return true;
@@ -94,19 +101,15 @@ bool sdr_worker_find_closest(void *id, void *data) {
     return false;
 }
 
-void sdr_worker_destroy_by_dsp_worker_id(uint32_t id, sdr_worker *worker) {
+bool sdr_worker_remove_dsp_worker(uint32_t id, sdr_worker *worker) {
     if (worker == NULL) {
-        return;
+        return false;
     }
     pthread_mutex_lock(&worker->mutex);
-    if (worker->dsp_configs != NULL) {
-        linked_list_destroy_by_id(&id, &dsp_worker_find_by_id, &worker->dsp_configs);
-    }
+    linked_list_remove_by_id(&id, &dsp_worker_find_by_id, &worker->dsp_configs);
     bool result = (worker->dsp_configs == NULL);
     pthread_mutex_unlock(&worker->mutex);
-    if (result) {
-        sdr_worker_destroy(worker);
-    }
+    return result;
 }
 
 void sdr_worker_destroy(void *data) {
@@ -118,7 +121,9 @@ void sdr_worker_destroy(void *data) {
     if (worker->rx_device != NULL) {
         worker->rx_device->stop_rx(worker->rx_device->plugin);
     }
-    pthread_join(worker->sdr_thread, NULL);
+    if (worker->started) {
+        pthread_join(worker->sdr_thread, NULL);
+    }
     //destroy the rx device
     if (worker->rx_device != NULL) {
         worker->rx_device->destroy(worker->rx_device->plugin);
@@ -142,6 +147,9 @@ void sdr_worker_destroy(void *data) {
 int sdr_worker_add_dsp_worker(dsp_worker *worker, sdr_worker *sdr) {
     pthread_mutex_lock(&sdr->mutex);
     int code = linked_list_add(worker, &dsp_worker_destroy, &sdr->dsp_configs);
+    if (code == 0 && sdr->ended) {
+        dsp_worker_shutdown(NULL, worker);
+    }
     pthread_mutex_unlock(&sdr->mutex);
     return code;
 }
\ No newline at end of file
diff --git a/src/sdr_worker.h b/src/sdr_worker.h
index 30d0275..cae15c6 100644
--- a/src/sdr_worker.h
+++ b/src/sdr_worker.h
@@ -12,10 +12,13 @@ void sdr_worker_destroy(void *data);
 
 bool sdr_worker_find_closest(void *id, void *data);
 
-void sdr_worker_destroy_by_dsp_worker_id(uint32_t id, sdr_worker *sdr);
+// returns true if there are no more dsp workers left. the dsp worker is not destroyed
+bool sdr_worker_remove_dsp_worker(uint32_t id, sdr_worker *sdr);
 
 int sdr_worker_add_dsp_worker(dsp_worker *worker, sdr_worker *sdr);
 
 int sdr_worker_create(uint32_t id, struct sdr_rx *rx, sdr_device *rx_device, sdr_worker **result);
 
+int sdr_worker_start(sdr_worker *worker);
+
 #endif //SDR_MODEM_SDR_WORKER_H
diff --git a/src/tcp_server.c b/src/tcp_server.c
index b6ecc7a..5fea0b7 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -40,8 +40,10 @@ struct tcp_worker {
     atomic_bool is_running;
 
     pthread_t client_thread;
+    bool started;
     tcp_server *server;
     sdr_worker *sdr;
+    dsp_worker *dsp;
 
     uint32_t buffer_size;
     uint8_t *buffer;
@@ -240,16 +242,48 @@ void handle_tx_data(struct tcp_worker *worker, struct message_header *header) {
     tx_data__free_unpacked(data, NULL);
 }
 
+static void tcp_worker_release(struct tcp_worker *worker) {
+    //sdr_worker might wait for the free space in the queue
+    if (worker->dsp != NULL) {
+        dsp_worker_shutdown(NULL, worker->dsp);
+    }
+    //terminate sdr_worker if no more dsp_workers there
+    pthread_mutex_lock(&worker->server->mutex);
+    sdr_worker *sdr = worker->sdr;
+    worker->sdr = NULL;
+    bool last = sdr_worker_remove_dsp_worker(worker->id, sdr);
+    pthread_mutex_unlock(&worker->server->mutex);
+    if (last) {
+        sdr_worker_destroy(sdr);
+    }
+    //terminate dsp_worker if any
+    dsp_worker_destroy(worker->dsp);
+    //terminate tx device if any
+    if (worker->tx_device != NULL) {
+        worker->tx_device->destroy(worker->tx_device->plugin);
+        free(worker->tx_device);
+    }
+    if (worker->tx_dump_file != NULL) {
+        fclose(worker->tx_dump_file);
+    }
+}
+
 static void *tcp_worker_callback(void *arg) {
     struct tcp_worker *worker = (struct tcp_worker *) arg;
     uint32_t id = worker->id;
     fprintf(stdout, "[%d] tcp_worker is starting\n", id);
-    while (worker->is_running) {
+    //the response should go before any other data
+    int code = api_utils_write_response(worker->client_socket, RESPONSE_STATUS__SUCCESS, id);
+    if (code == 0 && worker->dsp != NULL) {
+        code = dsp_worker_start(worker->dsp);
+    }
+    while (code == 0 && worker->is_running) {
         struct message_header header;
-        int code = api_utils_read_header(worker->client_socket, &header);
+        code = api_utils_read_header(worker->client_socket, &header);
         if (code < -1) {
             // read timeout happened. it's ok.
             // client already sent all information we need
+            code = 0;
             continue;
         }
         if (code == -1) {
@@ -270,17 +304,11 @@ static void *tcp_worker_callback(void *arg) {
             fprintf(stderr, "<3>[%d] unsupported request: %d\n", id, header.type);
         }
     }
-    //terminate dsp_worker if any
-    //terminate sdr_worker if no more dsp_workers there
-    sdr_worker_destroy_by_dsp_worker_id(worker->id, worker->sdr);
-    //terminate tx device if any
-    if (worker->tx_device != NULL) {
-        worker->tx_device->destroy(worker->tx_device->plugin);
-        free(worker->tx_device);
-    }
-    close(worker->client_socket);
-
+    tcp_worker_release(worker);
+    int client_socket = worker->client_socket;
+    //once the client is disconnected, everything it used should be available for others
     worker->is_running = false;
+    close(client_socket);
     return (void *) 0;
 }
 
@@ -302,6 +330,10 @@ bool tcp_worker_is_rxing(void *id, void *data) {
     return (worker->rx_req != NULL);
 }
 
+bool tcp_worker_is_same(void *id, void *data) {
+    return id == data;
+}
+
 bool tcp_worker_find_closest(void *id, void *data) {
     struct tcp_worker *worker = (struct tcp_worker *) data;
     return sdr_worker_find_closest(id, worker->sdr);
@@ -314,7 +346,11 @@ void tcp_worker_destroy(void *data) {
     struct tcp_worker *worker = (struct tcp_worker *) data;
     fprintf(stdout, "[%d] tcp_worker is stopping\n", worker->id);
     worker->is_running = false;
-    pthread_join(worker->client_thread, NULL);
+    if (worker->started) {
+        pthread_join(worker->client_thread, NULL);
+    } else {
+        tcp_worker_release(worker);
+    }
     if (worker->rx_req != NULL) {
         rx_request__free_unpacked(worker->rx_req, NULL);
     }
@@ -333,9 +369,6 @@ void tcp_worker_destroy(void *data) {
     if (worker->signal != NULL) {
         sig_source_destroy(worker->signal);
     }
-    if (worker->tx_dump_file != NULL) {
-        fclose(worker->tx_dump_file);
-    }
     uint32_t id = worker->id;
     free(worker);
     fprintf(stdout, "[%d] tcp_worker stopped\n", id);
@@ -393,8 +426,21 @@ int tcp_server_init_tx_device(uint32_t id, struct TxRequest *req, tcp_server *se
     return 0;
 }
 
-int tcp_server_init_rx_device(dsp_worker *dsp_worker, tcp_server *server, struct tcp_worker *tcp_worker) {
+int tcp_server_create_sdr_worker(struct sdr_rx *rx, sdr_device *rx_device, struct tcp_worker *tcp_worker) {
+    // take id from the first tcp client
+    int code = sdr_worker_create(tcp_worker->id, rx, rx_device, &tcp_worker->sdr);
+    if (code != 0) {
+        rx_device->destroy(rx_device->plugin);
+        free(rx_device);
+        free(rx);
+        return -RESPONSE_DETAILS_INTERNAL_ERROR;
+    }
+    return 0;
+}
+
+int tcp_server_init_rx_device(tcp_server *server, struct tcp_worker *tcp_worker) {
     struct sdr_rx *rx = NULL;
+    bool shared = false;
     int code = tcp_worker_convert(tcp_worker->rx_req, &rx);
     if (code != 0) {
         return -RESPONSE_DETAILS_INTERNAL_ERROR;
@@ -410,16 +456,13 @@ int tcp_server_init_rx_device(dsp_worker *dsp_worker, tcp_server *server, struct
                 free(rx);
                 return -RESPONSE_DETAILS_INTERNAL_ERROR;
             }
-            sdr_worker *sdr = NULL;
-            // take id from the first tcp client
-            code = sdr_worker_create(tcp_worker->id, rx, rx_device, &sdr);
+            code = tcp_server_create_sdr_worker(rx, rx_device, tcp_worker);
             if (code != 0) {
-                free(rx);
-                return -RESPONSE_DETAILS_INTERNAL_ERROR;
+                return code;
             }
-            tcp_worker->sdr = sdr;
         } else {
             tcp_worker->sdr = closest->sdr;
+            shared = true;
             free(rx);
         }
     } else if (server->server_config->rx_sdr_type == RX_SDR_TYPE_PLUTOSDR) {
@@ -446,13 +489,10 @@ int tcp_server_init_rx_device(dsp_worker *dsp_worker, tcp_server *server, struct
             fprintf(stderr, "<3>[%d] unable to init pluto rx\n", tcp_worker->id);
             return -RESPONSE_DETAILS_INTERNAL_ERROR;
         }
-        sdr_worker *sdr = NULL;
-        code = sdr_worker_create(tcp_worker->id, rx, rx_device, &sdr);
+        code = tcp_server_create_sdr_worker(rx, rx_device, tcp_worker);
         if (code != 0) {
-            free(rx);
-            return -RESPONSE_DETAILS_INTERNAL_ERROR;
+            return code;
         }
-        tcp_worker->sdr = sdr;
     } else if (server->server_config->rx_sdr_type == RX_SDR_TYPE_FILE) {
         sdr_device *rx_device = NULL;
         code = file_source_create(tcp_worker->id, tcp_worker->rx_req->file_settings->filename, NULL, rx->rx_sampling_freq, rx->rx_offset, server->server_config->buffer_size, &rx_device);
@@ -461,33 +501,47 @@ int tcp_server_init_rx_device(dsp_worker *dsp_worker, tcp_server *server, struct
             fprintf(stderr, "<3>[%d] unable to init file source\n", tcp_worker->id);
             return -RESPONSE_DETAILS_INTERNAL_ERROR;
         }
-        sdr_worker *sdr = NULL;
-        code = sdr_worker_create(tcp_worker->id, rx, rx_device, &sdr);
+        code = tcp_server_create_sdr_worker(rx, rx_device, tcp_worker);
         if (code != 0) {
-            free(rx);
-            return -RESPONSE_DETAILS_INTERNAL_ERROR;
+            return code;
         }
-        tcp_worker->sdr = sdr;
         fprintf(stdout, "[%d] demod file input at: %s\n", tcp_worker->id, tcp_worker->rx_req->file_settings->filename);
     } else {
         free(rx);
         return -1;
     }
 
-    code = sdr_worker_add_dsp_worker(dsp_worker, tcp_worker->sdr);
+    code = sdr_worker_add_dsp_worker(tcp_worker->dsp, tcp_worker->sdr);
     if (code != 0) {
         return -RESPONSE_DETAILS_INTERNAL_ERROR;
     }
 
-    code = linked_list_add(tcp_worker, &tcp_worker_destroy, &server->tcp_workers);
-    if (code != 0) {
-        return -RESPONSE_DETAILS_INTERNAL_ERROR;
+    if (!shared) {
+        code = sdr_worker_start(tcp_worker->sdr);
+        if (code != 0) {
+            return -RESPONSE_DETAILS_INTERNAL_ERROR;
+        }
     }
 
     server->rx_initialized = true;
     return 0;
 }
 
+int tcp_server_start_worker(struct tcp_worker *tcp_worker, tcp_server *server) {
+    int code = linked_list_add(tcp_worker, &tcp_worker_destroy, &server->tcp_workers);
+    if (code != 0) {
+        return -RESPONSE_DETAILS_INTERNAL_ERROR;
+    }
+    tcp_worker->is_running = true;
+    code = pthread_create(&tcp_worker->client_thread, NULL, &tcp_worker_callback, tcp_worker);
+    if (code != 0) {
+        linked_list_remove_by_id(tcp_worker, &tcp_worker_is_same, &server->tcp_workers);
+        return -RESPONSE_DETAILS_INTERNAL_ERROR;
+    }
+    tcp_worker->started = true;
+    return 0;
+}
+
 void handle_tx_client(int client_socket, struct message_header *header, tcp_server *server) {
     struct tcp_worker *tcp_worker = malloc(sizeof(struct tcp_worker));
     if (tcp_worker == NULL) {
@@ -585,25 +639,12 @@ void handle_tx_client(int client_socket, struct message_header *header, tcp_serv
         }
     }
 
-    tcp_worker->is_running = true;
-
-    pthread_t client_thread;
-    code = pthread_create(&client_thread, NULL, &tcp_worker_callback, tcp_worker);
+    code = tcp_server_start_worker(tcp_worker, server);
     if (code != 0) {
-        tcp_server_write_response_and_close(client_socket, RESPONSE_STATUS__FAILURE, RESPONSE_DETAILS_INTERNAL_ERROR);
-        tcp_worker_destroy(tcp_worker);
-        return;
-    }
-    tcp_worker->client_thread = client_thread;
-
-    code = linked_list_add(tcp_worker, &tcp_worker_destroy, &server->tcp_workers);
-    if (code != 0) {
-        tcp_server_write_response_and_close(client_socket, RESPONSE_STATUS__FAILURE, RESPONSE_DETAILS_INTERNAL_ERROR);
         tcp_worker_destroy(tcp_worker);
+        tcp_server_write_response_and_close(client_socket, RESPONSE_STATUS__FAILURE, -code);
         return;
     }
-
-    api_utils_write_response(tcp_worker->client_socket, RESPONSE_STATUS__SUCCESS, tcp_worker->id);
     fprintf(stdout, "[%d] mod: %s, tx freq: %" PRIu64 ", tx offset: %" PRId64 ", tx sampling_rate: %" PRIu64 ", baud: %d\n", tcp_worker->id, protobuf_c_enum_descriptor_get_value(&modem_type__descriptor, tcp_worker->tx_req->mod_type)->name, tcp_worker->tx_req->tx_center_freq,
             tcp_worker->tx_req->tx_offset,
             tcp_worker->tx_req->tx_sampling_freq,
@@ -644,19 +685,7 @@ void handle_rx_client(int client_socket, struct message_header *header, tcp_serv
         return;
     }
 
-    tcp_worker->is_running = true;
-
-    pthread_t client_thread;
-    int code = pthread_create(&client_thread, NULL, &tcp_worker_callback, tcp_worker);
-    if (code != 0) {
-        tcp_server_write_response_and_close(client_socket, RESPONSE_STATUS__FAILURE, RESPONSE_DETAILS_INTERNAL_ERROR);
-        tcp_worker_destroy(tcp_worker);
-        return;
-    }
-    tcp_worker->client_thread = client_thread;
-
-    dsp_worker *dsp_worker = NULL;
-    code = dsp_worker_create(tcp_worker->id, tcp_worker->client_socket, server->server_config, tcp_worker->rx_req, &dsp_worker);
+    int code = dsp_worker_create(tcp_worker->id, tcp_worker->client_socket, server->server_config, tcp_worker->rx_req, &tcp_worker->dsp);
     if (code != 0) {
         tcp_server_write_response_and_close(client_socket, RESPONSE_STATUS__FAILURE, RESPONSE_DETAILS_INTERNAL_ERROR);
         tcp_worker_destroy(tcp_worker);
@@ -664,17 +693,18 @@ void handle_rx_client(int client_socket, struct message_header *header, tcp_serv
     }
 
     pthread_mutex_lock(&server->mutex);
-    code = tcp_server_init_rx_device(dsp_worker, server, tcp_worker);
+    code = tcp_server_init_rx_device(server, tcp_worker);
     pthread_mutex_unlock(&server->mutex);
+    if (code == 0) {
+        code = tcp_server_start_worker(tcp_worker, server);
+    }
     if (code != 0) {
-        tcp_server_write_response_and_close(client_socket, RESPONSE_STATUS__FAILURE, -code);
         // this will trigger sdr_worker destroy if any
         tcp_worker_destroy(tcp_worker);
-        dsp_worker_destroy(dsp_worker);
+        tcp_server_write_response_and_close(client_socket, RESPONSE_STATUS__FAILURE, -code);
         return;
     }
 
-    api_utils_write_response(tcp_worker->client_socket, RESPONSE_STATUS__SUCCESS, tcp_worker->id);
     fprintf(stdout, "[%d] demod: %s, rx freq: %" PRIu64 ", rx offset: %" PRId64 ", rx sampling_rate: %" PRIu64 ", baud: %d, destination: %s doppler: %d\n", tcp_worker->id,
             protobuf_c_enum_descriptor_get_value(&modem_type__descriptor, tcp_worker->rx_req->demod_type)->name, tcp_worker->rx_req->rx_center_freq, tcp_worker->rx_req->rx_offset,
             tcp_worker->rx_req->rx_sampling_freq, tcp_worker->rx_req->demod_baud_rate, protobuf_c_enum_descriptor_get_value(&demod_destination__descriptor, tcp_worker->rx_req->demod_destination)->name, tcp_worker->rx_req->doppler != NULL);
-- 
2.43.0


From 983d502265a2db7bcfd7fdf1b562180efd6e20f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:07 +0000
Subject: [PATCH 09/47] fix: client that doesn't read the data cannot block the
 server

Write to such client blocked forever, so the session could not be stopped
and the whole server could not be stopped as well
---
 src/dsp_worker.c | 19 ++++++++++++++++++-
 src/tcp_server.c |  6 ++++++
 src/tcp_utils.c  | 19 ++++++++++++++++---
 src/tcp_utils.h  |  2 ++
 4 files changed, 42 insertions(+), 4 deletions(-)

diff --git a/src/dsp_worker.c b/src/dsp_worker.c
index f9231aa..158ec4a 100644
--- a/src/dsp_worker.c
+++ b/src/dsp_worker.c
@@ -2,6 +2,7 @@
 #include <stdio.h>
 #include <pthread.h>
 #include <errno.h>
+#include <stdatomic.h>
 #include "dsp/fsk_demod.h"
 #include "queue.h"
 #include "api.h"
@@ -19,6 +20,7 @@ struct dsp_worker_t {
     queue *queue;
     pthread_t dsp_thread;
     bool started;
+    atomic_bool stopping;
     FILE *rx_dump_file;
     FILE *demod_file;
     DemodDestination demod_destination;
@@ -42,6 +44,20 @@ void dsp_worker_shutdown(void *arg, void *data) {
     interrupt_waiting_the_data(worker->queue);
 }
 
+static int dsp_worker_write_to_client(dsp_worker *worker, uint8_t *output, size_t output_len) {
+    while (output_len > 0) {
+        size_t written = 0;
+        int code = tcp_utils_write_data_partially(output, output_len, &written, worker->client_socket);
+        output += written;
+        output_len -= written;
+        // slow client is ok unless it should be disconnected
+        if (code == -1 || (code != 0 && worker->stopping)) {
+            return -1;
+        }
+    }
+    return 0;
+}
+
 static void *dsp_worker_callback(void *arg) {
     dsp_worker *worker = (dsp_worker *) arg;
     uint32_t id = worker->id;
@@ -92,7 +108,7 @@ static void *dsp_worker_callback(void *arg) {
         }
         int code = 0;
         if (worker->demod_destination == DEMOD_DESTINATION__SOCKET || worker->demod_destination == DEMOD_DESTINATION__BOTH) {
-            code = tcp_utils_write_data((uint8_t *) demod_output, demod_output_len, worker->client_socket);
+            code = dsp_worker_write_to_client(worker, (uint8_t *) demod_output, demod_output_len);
         }
 
         complete_buffer_processing(worker->queue);
@@ -203,6 +219,7 @@ void dsp_worker_destroy(void *data) {
     }
     dsp_worker *worker = (dsp_worker *) data;
     fprintf(stdout, "[%d] dsp_worker is stopping\n", worker->id);
+    worker->stopping = true;
     if (worker->queue != NULL) {
         interrupt_waiting_the_data(worker->queue);
     }
diff --git a/src/tcp_server.c b/src/tcp_server.c
index 5fea0b7..93d7d27 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -728,6 +728,12 @@ static void *acceptor_worker(void *arg) {
             perror("setsockopt - SO_RCVTIMEO");
             continue;
         }
+        // the client might not read the data
+        if (setsockopt(client_socket, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof tv)) {
+            close(client_socket);
+            perror("setsockopt - SO_SNDTIMEO");
+            continue;
+        }
 
         // always increment counter to make even error messages traceable
         server->client_counter++;
diff --git a/src/tcp_utils.c b/src/tcp_utils.c
index 063a910..e0d2b31 100644
--- a/src/tcp_utils.c
+++ b/src/tcp_utils.c
@@ -4,19 +4,32 @@
 #include <errno.h>
 #include <sys/socket.h>
 
-int tcp_utils_write_data(uint8_t *buffer, size_t total_len_bytes, int client_socket) {
+int tcp_utils_write_data_partially(uint8_t *buffer, size_t total_len_bytes, size_t *actually_written, int client_socket) {
     size_t left = total_len_bytes;
+    int code = 0;
     while (left > 0) {
         ssize_t written = write(client_socket, buffer + (total_len_bytes - left), left);
         if (written < 0) {
             if (errno == EINTR) {
                 continue;
             }
-            return -1;
+            if (errno == EWOULDBLOCK || errno == EAGAIN) {
+                code = -errno;
+            } else {
+                code = -1;
+            }
+            break;
         }
         left -= written;
     }
-    return 0;
+    *actually_written = total_len_bytes - left;
+    return code;
+}
+
+int tcp_utils_write_data(uint8_t *buffer, size_t total_len_bytes, int client_socket) {
+    size_t actually_written = 0;
+    int code = tcp_utils_write_data_partially(buffer, total_len_bytes, &actually_written, client_socket);
+    return code == 0 ? 0 : -1;
 }
 
 int tcp_utils_read_data_partially(void *result, size_t len_bytes, size_t *actually_read, int client_socket) {
diff --git a/src/tcp_utils.h b/src/tcp_utils.h
index e039686..51867f9 100644
--- a/src/tcp_utils.h
+++ b/src/tcp_utils.h
@@ -6,6 +6,8 @@
 
 int tcp_utils_write_data(uint8_t *buffer, size_t total_len_bytes, int client_socket);
 
+int tcp_utils_write_data_partially(uint8_t *buffer, size_t total_len_bytes, size_t *actually_written, int client_socket);
+
 int tcp_utils_read_data(void *result, size_t len_bytes, int client_socket);
 
 int tcp_utils_read_data_partially(void *result, size_t len_bytes, size_t *actually_read, int client_socket);
-- 
2.43.0


From 6ff593ae243f8abe4344e5e4abd6e437ccb7071f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:07 +0000
Subject: [PATCH 10/47] fix: disconnect the client if the response cannot be
 sent

---
 src/tcp_server.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tcp_server.c b/src/tcp_server.c
index 93d7d27..bb1ae4b 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -175,13 +175,12 @@ void tcp_server_write_response_and_close(int client_socket, ResponseStatus statu
     close(client_socket);
 }
 
-void handle_tx_data(struct tcp_worker *worker, struct message_header *header) {
+int handle_tx_data(struct tcp_worker *worker, struct message_header *header) {
     TxData *data = NULL;
     int code = api_utils_read_tx_data(worker->client_socket, header, &data);
     if (code != 0) {
         fprintf(stderr, "<3>[%d] unable to read tx request fully\n", worker->id);
-        api_utils_write_response(worker->client_socket, RESPONSE_STATUS__FAILURE, RESPONSE_DETAILS_INVALID_REQUEST);
-        return;
+        return api_utils_write_response(worker->client_socket, RESPONSE_STATUS__FAILURE, RESPONSE_DETAILS_INVALID_REQUEST);
     }
     size_t left = data->data.len;
     uint32_t processed = 0;
@@ -226,7 +225,7 @@ void handle_tx_data(struct tcp_worker *worker, struct message_header *header) {
             code = worker->tx_device->sdr_process_tx(output, output_len, worker->tx_device->plugin);
             if (code != 0) {
                 fprintf(stderr, "<3>[%d] unable to transmit request fully\n", worker->id);
-                api_utils_write_response(worker->client_socket, RESPONSE_STATUS__FAILURE, RESPONSE_DETAILS_INTERNAL_ERROR);
+                code = api_utils_write_response(worker->client_socket, RESPONSE_STATUS__FAILURE, RESPONSE_DETAILS_INTERNAL_ERROR);
                 break;
             }
         }
@@ -237,9 +236,10 @@ void handle_tx_data(struct tcp_worker *worker, struct message_header *header) {
 
     if (left == 0) {
         fprintf(stdout, "[%d] successfully sent %zu bytes\n", worker->id, data->data.len);
-        api_utils_write_response(worker->client_socket, RESPONSE_STATUS__SUCCESS, RESPONSE_NO_DETAILS);
+        code = api_utils_write_response(worker->client_socket, RESPONSE_STATUS__SUCCESS, RESPONSE_NO_DETAILS);
     }
     tx_data__free_unpacked(data, NULL);
+    return code;
 }
 
 static void tcp_worker_release(struct tcp_worker *worker) {
@@ -299,7 +299,7 @@ static void *tcp_worker_callback(void *arg) {
             break;
         } else if (header.type == TYPE_TX_DATA) {
             fprintf(stdout, "[%d] received tx request\n", id);
-            handle_tx_data(worker, &header);
+            code = handle_tx_data(worker, &header);
         } else {
             fprintf(stderr, "<3>[%d] unsupported request: %d\n", id, header.type);
         }
-- 
2.43.0


From 2401497a0fddb578a013ed3ee5ce9122e711fbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:07 +0000
Subject: [PATCH 11/47] fix: refuse to transmit within the receive session

The session had no buffer and the client thread was looping forever
---
 src/tcp_server.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tcp_server.c b/src/tcp_server.c
index bb1ae4b..8020d99 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -297,7 +297,7 @@ static void *tcp_worker_callback(void *arg) {
         if (header.type == TYPE_SHUTDOWN) {
             fprintf(stdout, "[%d] client requested disconnect\n", id);
             break;
-        } else if (header.type == TYPE_TX_DATA) {
+        } else if (header.type == TYPE_TX_DATA && worker->tx_req != NULL) {
             fprintf(stdout, "[%d] received tx request\n", id);
             code = handle_tx_data(worker, &header);
         } else {
-- 
2.43.0


From 6c2d83a681d1fa3d2711939ebfc2e1d8474bd642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:07 +0000
Subject: [PATCH 12/47] fix: skip the body of unsupported messages

It was interpreted as the header of the next message
---
 src/api_utils.c  | 16 ++++++++++++++++
 src/api_utils.h  |  2 ++
 src/tcp_server.c |  2 ++
 3 files changed, 20 insertions(+)

diff --git a/src/api_utils.c b/src/api_utils.c
index 2345f9d..4e0c043 100644
--- a/src/api_utils.c
+++ b/src/api_utils.c
@@ -15,12 +15,28 @@ int api_utils_read_header(int socket, struct message_header *header) {
     return code;
 }
 
+int api_utils_skip_message(int socket, const struct message_header *header) {
+    uint8_t buffer[1024];
+    size_t left = header->message_length;
+    while (left > 0) {
+        size_t batch = left < sizeof(buffer) ? left : sizeof(buffer);
+        int code = tcp_utils_read_data(buffer, batch, socket);
+        if (code != 0) {
+            return code;
+        }
+        left -= batch;
+    }
+    return 0;
+}
+
 int api_utils_read_tx_data(int socket, const struct message_header *header, struct TxData **request) {
     if (header->message_length > MAX_MESSAGE_LENGTH) {
+        api_utils_skip_message(socket, header);
         return -1;
     }
     uint8_t *buffer = malloc(sizeof(uint8_t) * header->message_length);
     if (buffer == NULL) {
+        api_utils_skip_message(socket, header);
         return -ENOMEM;
     }
     int code = tcp_utils_read_data(buffer, header->message_length, socket);
diff --git a/src/api_utils.h b/src/api_utils.h
index 7309a5d..b335980 100644
--- a/src/api_utils.h
+++ b/src/api_utils.h
@@ -7,6 +7,8 @@
 
 int api_utils_read_header(int socket, struct message_header *header);
 
+int api_utils_skip_message(int socket, const struct message_header *header);
+
 int api_utils_read_rx_request(int socket, const struct message_header *header, struct RxRequest **request);
 
 int api_utils_read_tx_request(int socket, const struct message_header *header, struct TxRequest **request);
diff --git a/src/tcp_server.c b/src/tcp_server.c
index 8020d99..705f75a 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -292,6 +292,7 @@ static void *tcp_worker_callback(void *arg) {
         }
         if (header.protocol_version != PROTOCOL_VERSION) {
             fprintf(stderr, "<3>[%d] unsupported protocol: %d\n", id, header.protocol_version);
+            api_utils_skip_message(worker->client_socket, &header);
             continue;
         }
         if (header.type == TYPE_SHUTDOWN) {
@@ -302,6 +303,7 @@ static void *tcp_worker_callback(void *arg) {
             code = handle_tx_data(worker, &header);
         } else {
             fprintf(stderr, "<3>[%d] unsupported request: %d\n", id, header.type);
+            api_utils_skip_message(worker->client_socket, &header);
         }
     }
     tcp_worker_release(worker);
-- 
2.43.0


From e6ccc8e918a25375620fdeb00fa8e00c5946e580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:58 +0000
Subject: [PATCH 13/47] fix: close the listening socket

It was leaked when the server could not be created and when it was stopped
---
 src/tcp_server.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/tcp_server.c b/src/tcp_server.c
index 705f75a..1284c91 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -791,7 +791,7 @@ int tcp_server_create(struct server_config *config, tcp_server **server) {
     result->tcp_workers = NULL;
 
     int server_socket = socket(AF_INET, SOCK_STREAM, 0);
-    if (server_socket == 0) {
+    if (server_socket < 0) {
         free(result);
         perror("socket creation failed");
         return -1;
@@ -805,6 +805,7 @@ int tcp_server_create(struct server_config *config, tcp_server **server) {
     result->client_counter = -1;
     int opt = 1;
     if (setsockopt(server_socket, SOL_SOCKET, SO_REUSEADDR, &opt, sizeof(opt))) {
+        close(server_socket);
         free(result);
         perror("setsockopt - SO_REUSEADDR");
         return -1;
@@ -812,6 +813,7 @@ int tcp_server_create(struct server_config *config, tcp_server **server) {
 
 #ifdef SO_REUSEPORT
     if (setsockopt(server_socket, SOL_SOCKET, SO_REUSEPORT, &opt, sizeof(opt))) {
+        close(server_socket);
         free(result);
         perror("setsockopt - SO_REUSEPORT");
         return -1;
@@ -821,6 +823,7 @@ int tcp_server_create(struct server_config *config, tcp_server **server) {
     struct sockaddr_in address;
     address.sin_family = AF_INET;
     if (inet_pton(AF_INET, config->bind_address, &address.sin_addr) <= 0) {
+        close(server_socket);
         free(result);
         fprintf(stderr, "invalid address: %s\n", config->bind_address);
         return -1;
@@ -828,11 +831,13 @@ int tcp_server_create(struct server_config *config, tcp_server **server) {
     address.sin_port = htons(config->port);
 
     if (bind(server_socket, (struct sockaddr *) &address, sizeof(address)) < 0) {
+        close(server_socket);
         free(result);
         perror("bind failed");
         return -1;
     }
     if (listen(server_socket, 3) < 0) {
+        close(server_socket);
         free(result);
         perror("listen failed");
         return -1;
@@ -841,6 +846,7 @@ int tcp_server_create(struct server_config *config, tcp_server **server) {
     pthread_t acceptor_thread;
     int code = pthread_create(&acceptor_thread, NULL, &acceptor_worker, result);
     if (code != 0) {
+        close(server_socket);
         free(result);
         return -1;
     }
@@ -852,6 +858,9 @@ int tcp_server_create(struct server_config *config, tcp_server **server) {
 
 void tcp_server_join_thread(tcp_server *server) {
     pthread_join(server->acceptor_thread, NULL);
+    if (server->server_socket != -1) {
+        close(server->server_socket);
+    }
     free(server);
 }
 
@@ -866,5 +875,6 @@ void tcp_server_destroy(tcp_server *server) {
     int code = shutdown(server->server_socket, SHUT_RDWR);
     if (code != 0) {
         close(server->server_socket);
+        server->server_socket = -1;
     }
 }
-- 
2.43.0


From 26bb56903c015db26357cb62ac7bdac81780de63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:58 +0000
Subject: [PATCH 14/47] fix: continue accepting clients when one disconnects
 too early

---
 src/tcp_server.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tcp_server.c b/src/tcp_server.c
index 1284c91..f6844df 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -719,6 +719,10 @@ static void *acceptor_worker(void *arg) {
         int client_socket;
         int addrlen = sizeof(address);
         if ((client_socket = accept(server->server_socket, (struct sockaddr *) &address, (socklen_t *) &addrlen)) < 0) {
+            // the client disconnected too early
+            if (errno == ECONNABORTED || errno == EINTR) {
+                continue;
+            }
             break;
         }
 
-- 
2.43.0


From b7280b7515d177285dd34222f65b991fb08d0255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:25 +0000
Subject: [PATCH 15/47] fix: signal during the start or right after it

It was either ignored or caused the crash on joining the NULL server
---
 src/main.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/main.c b/src/main.c
index 7f44c7a..c92b2c7 100644
--- a/src/main.c
+++ b/src/main.c
@@ -25,19 +25,23 @@ int main(int argc, char **argv) {
 		exit(EXIT_FAILURE);
 	}
 
-	signal(SIGINT, sdrmodem_stop_async);
-	signal(SIGHUP, sdrmodem_stop_async);
-	signal(SIGTERM, sdrmodem_stop_async);
     signal(SIGPIPE, SIG_IGN);
 
-	code = tcp_server_create(server_config, &server);
+	tcp_server *created = NULL;
+	code = tcp_server_create(server_config, &created);
 	if (code != 0) {
 		server_config_destroy(server_config);
 		exit(EXIT_FAILURE);
 	}
 
+	// only running server can be stopped gracefully
+	server = created;
+	signal(SIGINT, sdrmodem_stop_async);
+	signal(SIGHUP, sdrmodem_stop_async);
+	signal(SIGTERM, sdrmodem_stop_async);
+
 	// wait here until server terminates
-	tcp_server_join_thread(server);
+	tcp_server_join_thread(created);
 
 	// server will be freed on its own thread
 	server_config_destroy(server_config);
-- 
2.43.0


From 878bbd307d98838954b3ac4cef1f38b8a8880216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:29 +0000
Subject: [PATCH 16/47] fix: do not crash or leak when a filter cannot be
 allocated

---
 src/dsp/fir_filter.c            | 13 +++++++++----
 src/dsp/gfsk_mod.c              |  1 +
 src/dsp/lpf.c                   |  1 +
 src/dsp/mmse_fir_interpolator.c |  1 +
 4 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/dsp/fir_filter.c b/src/dsp/fir_filter.c
index d7469f6..49881f5 100644
--- a/src/dsp/fir_filter.c
+++ b/src/dsp/fir_filter.c
@@ -10,11 +10,17 @@ int create_aligned_taps(const float *original_taps, size_t taps_len, fir_filter
     // Make a set of taps at all possible alignments
     float **result = malloc(number_of_aligned * sizeof(float *));
     if (result == NULL) {
-        return -1;
+        return -ENOMEM;
     }
+    // attach to the filter right away so that destroy_* method would release it
+    filter->taps = result;
     for (int i = 0; i < number_of_aligned; i++) {
         size_t aligned_taps_len = taps_len + number_of_aligned - 1;
         result[i] = (float *) volk_malloc(aligned_taps_len * sizeof(float), filter->alignment);
+        if (result[i] == NULL) {
+            return -ENOMEM;
+        }
+        filter->aligned_taps_len = i + 1;
         // some taps will be longer than original, but
         // since they contain zeros, multiplication on an input will produce 0
         // there is a tradeoff: multiply unaligned input or
@@ -27,8 +33,6 @@ int create_aligned_taps(const float *original_taps, size_t taps_len, fir_filter
             result[i][i + j] = original_taps[taps_len - j - 1];
         }
     }
-    filter->taps = result;
-    filter->aligned_taps_len = number_of_aligned;
     return 0;
 }
 
@@ -55,7 +59,6 @@ int fir_filter_create(uint8_t decimation, float *taps, size_t taps_len,
 
     result->decimation = decimation;
     result->num_bytes = num_bytes;
-    result->original_taps = taps;
     result->taps_len = taps_len;
     result->history_offset = taps_len - 1;
     int code = create_aligned_taps(taps, taps_len, result);
@@ -86,6 +89,8 @@ int fir_filter_create(uint8_t decimation, float *taps, size_t taps_len,
         return -ENOMEM;
     }
 
+    // on any error above taps belong to the caller
+    result->original_taps = taps;
     *filter = result;
     return 0;
 }
diff --git a/src/dsp/gfsk_mod.c b/src/dsp/gfsk_mod.c
index 23320fa..59e947b 100644
--- a/src/dsp/gfsk_mod.c
+++ b/src/dsp/gfsk_mod.c
@@ -22,6 +22,7 @@ int gfsk_mod_convolve(float *x, size_t x_len, float *y, size_t y_len, float **ou
     }
     float *temp = malloc(sizeof(float) * result_len);
     if (temp == NULL) {
+        free(result);
         return -ENOMEM;
     }
     memset(temp, 0, sizeof(float) * result_len);
diff --git a/src/dsp/lpf.c b/src/dsp/lpf.c
index 776f0d0..272051c 100644
--- a/src/dsp/lpf.c
+++ b/src/dsp/lpf.c
@@ -27,6 +27,7 @@ int lpf_create(uint8_t decimation, uint64_t sampling_freq, uint64_t cutoff_freq,
     }
     code = fir_filter_create(decimation, taps, taps_len, max_input_buffer_length, num_bytes, &result->filter);
     if (code != 0) {
+        free(taps);
         lpf_destroy(result);
         return code;
     }
diff --git a/src/dsp/mmse_fir_interpolator.c b/src/dsp/mmse_fir_interpolator.c
index bb18ba6..1f185f2 100644
--- a/src/dsp/mmse_fir_interpolator.c
+++ b/src/dsp/mmse_fir_interpolator.c
@@ -171,6 +171,7 @@ int mmse_fir_interpolator_create(mmse_fir_interpolator **interp) {
         int code = fir_filter_create(1, filter_taps, result->taps_len, result->taps_len, sizeof(float), &curFilter);
         //init all filters anyway
         if (code != 0) {
+            free(filter_taps);
             result_code = code;
             result->filters[i] = NULL;
         } else {
-- 
2.43.0


From 1574eba4fd5aa629447a3b0ca4af81c8e8d8fd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:29 +0000
Subject: [PATCH 17/47] fix: release plutosdr configuration when out of memory

---
 src/sdr/plutosdr.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sdr/plutosdr.c b/src/sdr/plutosdr.c
index efcf39c..18fc538 100644
--- a/src/sdr/plutosdr.c
+++ b/src/sdr/plutosdr.c
@@ -451,6 +451,8 @@ int plutosdr_create(uint32_t id, bool rx_only, struct stream_cfg *rx_config, str
     }
     struct plutosdr_t *pluto = malloc(sizeof(struct plutosdr_t));
     if (pluto == NULL) {
+        free(rx_config);
+        free(tx_config);
         return -ENOMEM;
     }
     *pluto = (struct plutosdr_t) {0};
-- 
2.43.0


From 46e87cfc51d9a7b1789810d39b884f5d88bd01c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:29 +0000
Subject: [PATCH 18/47] fix: report tx file write errors

---
 src/sdr/file_source.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/sdr/file_source.c b/src/sdr/file_source.c
index 599628d..3b7b44f 100644
--- a/src/sdr/file_source.c
+++ b/src/sdr/file_source.c
@@ -143,11 +143,13 @@ int file_source_process_tx(float complex *input, size_t input_len, void *plugin)
         float complex *sig_output = NULL;
         size_t sig_output_len = 0;
         sig_source_multiply(device->freq_offset, input, input_len, &sig_output, &sig_output_len, device->signal);
-        //ignore actually written
-        fwrite(sig_output, sizeof(float complex), sig_output_len, device->tx_file);
-    } else {
-        //ignore actually written
-        fwrite(input, sizeof(float complex), input_len, device->tx_file);
+        input = sig_output;
+        input_len = sig_output_len;
+    }
+    size_t n_written = fwrite(input, sizeof(float complex), input_len, device->tx_file);
+    if (n_written < input_len) {
+        fprintf(stderr, "<3>[%d] unable to write tx data\n", device->id);
+        return -1;
     }
     return 0;
 }
-- 
2.43.0


From d22ff3f7c45729bbe621904f7c660b598cc181de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:46 +0000
Subject: [PATCH 19/47] fix: buffers shorter than the filter decimation

---
 src/dsp/fir_filter.c | 18 ++++++++++++------
 src/dsp/fir_filter.h |  1 +
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/dsp/fir_filter.c b/src/dsp/fir_filter.c
index 49881f5..e5b8af8 100644
--- a/src/dsp/fir_filter.c
+++ b/src/dsp/fir_filter.c
@@ -99,16 +99,19 @@ void fir_filter_process_float(const float *input, size_t input_len, float *worki
                               fir_filter *filter) {
     memcpy(working_buffer + filter->history_offset, input, input_len * filter->num_bytes);
     size_t working_len = filter->history_offset + input_len;
-    size_t i = 0;
+    // samples already decimated before they were received
+    size_t i = filter->skip;
     size_t produced = 0;
     float *output_pointer = (float *) filter->output;
-    size_t max_index = working_len - (filter->taps_len - 1);
-    for (; i < max_index; i += filter->decimation, produced++) {
+    for (; i + filter->taps_len <= working_len; i += filter->decimation, produced++) {
         volk_32f_x2_dot_prod_32f_u(filter->volk_output, working_buffer + i, filter->taps[0],
                                    filter->taps_len);
         *output_pointer = *(float *) filter ->volk_output;
         output_pointer++;
     }
+    // next output might start after all the samples received so far
+    filter->skip = i > working_len ? i - working_len : 0;
+    i -= filter->skip;
     filter->history_offset = working_len - i;
     if (i > 0) {
         memmove(working_buffer, working_buffer + i, filter->num_bytes * filter->history_offset);
@@ -129,16 +132,19 @@ void fir_filter_process_complex(const float complex *input, size_t input_len, fl
                                 size_t *output_len, fir_filter *filter) {
     memcpy(working_buffer + filter->history_offset, input, input_len * filter->num_bytes);
     size_t working_len = filter->history_offset + input_len;
-    size_t i = 0;
+    // samples already decimated before they were received
+    size_t i = filter->skip;
     size_t produced = 0;
     float complex *output_pointer = (float complex *) filter->output;
-    size_t max_index = working_len - (filter->taps_len - 1);
-    for (; i < max_index; i += filter->decimation, produced++) {
+    for (; i + filter->taps_len <= working_len; i += filter->decimation, produced++) {
         volk_32fc_32f_dot_prod_32fc_u(filter->volk_output, working_buffer + i, filter->taps[0],
                                       filter->taps_len);
         *output_pointer = *(float complex *) filter->volk_output;
         output_pointer++;
     }
+    // next output might start after all the samples received so far
+    filter->skip = i > working_len ? i - working_len : 0;
+    i -= filter->skip;
     filter->history_offset = working_len - i;
     if (i > 0) {
         memmove(working_buffer, working_buffer + i, filter->num_bytes * filter->history_offset);
diff --git a/src/dsp/fir_filter.h b/src/dsp/fir_filter.h
index 1ad8583..e0aa6df 100644
--- a/src/dsp/fir_filter.h
+++ b/src/dsp/fir_filter.h
@@ -17,6 +17,7 @@ struct fir_filter_t {
 
     void *working_buffer;
     size_t history_offset;
+    size_t skip;
     size_t working_len_total;
     void *volk_output;
     size_t max_input_buffer_length;
-- 
2.43.0


From f3094084c2e0ccc9c86408f48882a79cc66907e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:31 +0000
Subject: [PATCH 20/47] fix: clock recovery should not repeat or overflow
 samples between the buffers

---
 src/dsp/clock_recovery_mm.c | 47 ++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 24 deletions(-)

diff --git a/src/dsp/clock_recovery_mm.c b/src/dsp/clock_recovery_mm.c
index 9f90f03..fb0ed46 100644
--- a/src/dsp/clock_recovery_mm.c
+++ b/src/dsp/clock_recovery_mm.c
@@ -19,6 +19,7 @@ struct clock_mm_t {
 
     float *working_buffer;
     size_t history_offset;
+    size_t skip;
     size_t working_len_total;
 
     float *output;
@@ -75,6 +76,12 @@ static inline float branchless_clip(float x, float clip) {
     return 0.5F * (fabsf(x + clip) - fabsf(x - clip));
 }
 
+// always move forward
+// otherwise output and history might not fit the buffers
+static inline size_t clock_mm_step(float step) {
+    return step > 1.0F ? (size_t) floorf(step) : 1;
+}
+
 void clock_mm_process(const float *input, size_t input_len, float **output, size_t *output_len, clock_mm *clock) {
     // even if mu == 1 input buffer should not be more than output buffer
     if (input_len > clock->output_len) {
@@ -86,54 +93,46 @@ void clock_mm_process(const float *input, size_t input_len, float **output, size
     // prepend history to the input
     memcpy(clock->working_buffer + clock->history_offset, input, input_len * sizeof(float));
     int taps_len = mmse_fir_interpolator_taps(clock->interp);
-    int ii = 0;                                  // input index
-    int oo = 0;                                  // output index
-    int previous = 0;
+    size_t ii = clock->skip;                     // input index
+    size_t oo = 0;                               // output index
     size_t working_len = clock->history_offset + input_len;
-    // not enough input
-    if (working_len < taps_len) {
-        clock->history_offset = working_len;
-        *output = NULL;
-        *output_len = 0;
-        return;
-    }
-    size_t max_index = working_len - (taps_len - 1);
     float mm_val;
 
-    while (ii < max_index && oo < clock->output_len) {
+    while (ii + taps_len <= working_len) {
         // produce output sample
         clock->output[oo] = mmse_fir_interpolator_process(clock->working_buffer + ii, clock->mu,
                                                           clock->interp);
         if (isnan(clock->output[oo])) {
             clock->output[oo] = 0.0f;
-            previous = ii;
-            ii += (int) floorf(clock->omega);
+            ii += clock_mm_step(clock->omega);
             oo++;
             continue;
         }
 
         mm_val = slice(clock->last_sample) * clock->output[oo] - slice(clock->output[oo]) * clock->last_sample;
         clock->last_sample = clock->output[oo];
-        previous = ii;
 
         clock->omega = clock->omega + clock->gain_omega * mm_val;
         clock->omega = clock->omega_mid + branchless_clip(clock->omega - clock->omega_mid, clock->omega_lim);
         clock->mu = clock->mu + clock->omega + clock->gain_mu * mm_val;
-        ii += (int) floorf(clock->mu);
+        ii += clock_mm_step(clock->mu);
         clock->mu = clock->mu - floorf(clock->mu);
         oo++;
     }
 
-    size_t last_index;
-    if (ii > working_len) {
-        last_index = previous;
-    } else {
-        last_index = ii;
-    }
-    clock->history_offset = working_len - last_index;
+    // next symbol might start after all the samples received so far
+    clock->skip = ii > working_len ? ii - working_len : 0;
+    ii -= clock->skip;
+    clock->history_offset = working_len - ii;
 
-    memmove(clock->working_buffer, clock->working_buffer + last_index, sizeof(float) * clock->history_offset);
+    memmove(clock->working_buffer, clock->working_buffer + ii, sizeof(float) * clock->history_offset);
 
+    // not enough input
+    if (oo == 0) {
+        *output = NULL;
+        *output_len = 0;
+        return;
+    }
     *output = clock->output;
     *output_len = oo;
 }
-- 
2.43.0


From 9040d978610ad8466fc39c5478f4f07bb019a578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:37:35 +0000
Subject: [PATCH 21/47] fix: refuse modulation parameters that cannot be
 realised

---
 src/dsp/gfsk_mod.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/dsp/gfsk_mod.c b/src/dsp/gfsk_mod.c
index 59e947b..ba59247 100644
--- a/src/dsp/gfsk_mod.c
+++ b/src/dsp/gfsk_mod.c
@@ -3,9 +3,14 @@
 #include <errno.h>
 #include <string.h>
 #include <stdio.h>
+#include <math.h>
 #include "interp_fir_filter.h"
 #include "frequency_modulator.h"
 
+#ifndef M_PI
+#define M_PI 3.14159265358979323846
+#endif
+
 struct gfsk_mod_t {
     interp_fir_filter *filter;
     frequency_modulator *freq_mod;
@@ -42,6 +47,15 @@ int gfsk_mod_convolve(float *x, size_t x_len, float *y, size_t y_len, float **ou
 }
 
 int gfsk_mod_create(float samples_per_symbol, float sensitivity, float bt, uint32_t max_input_buffer_length, gfsk_mod **mod) {
+    // interpolation is limited by uint8
+    if (!(samples_per_symbol >= 1.0F && samples_per_symbol < UINT8_MAX + 1)) {
+        fprintf(stderr, "<3>unsupported number of samples per symbol: %f\n", samples_per_symbol);
+        return -1;
+    }
+    if (!(fabsf(sensitivity) <= (float) M_PI)) {
+        fprintf(stderr, "<3>deviation is more than half of the sampling frequency\n");
+        return -1;
+    }
     struct gfsk_mod_t *result = malloc(sizeof(struct gfsk_mod_t));
     if (result == NULL) {
         return -ENOMEM;
-- 
2.43.0


From 8bf0b428a6761a6016d147fd406f0e136dc702e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:37:35 +0000
Subject: [PATCH 22/47] fix: refuse demodulation parameters that cannot be
 realised

---
 src/dsp/fsk_demod.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dsp/fsk_demod.c b/src/dsp/fsk_demod.c
index db2e65b..76fc0f1 100644
--- a/src/dsp/fsk_demod.c
+++ b/src/dsp/fsk_demod.c
@@ -6,6 +6,7 @@
 #include <volk/volk.h>
 #include <errno.h>
 #include <stdio.h>
+#include <inttypes.h>
 
 #include "lpf.h"
 
@@ -26,6 +27,10 @@ struct fsk_demod_t {
 };
 
 int fsk_demod_create(uint64_t sampling_freq, uint32_t baud_rate, int64_t deviation, uint8_t decimation, uint32_t transition_width, bool use_dc_block, uint32_t max_input_buffer_length, fsk_demod **demod) {
+    if (deviation == 0 || decimation == 0 || baud_rate == 0 || sampling_freq / baud_rate < decimation) {
+        fprintf(stderr, "<3>unsupported fsk configuration. deviation: %" PRId64 " decimation: %d baud rate: %d\n", deviation, decimation, baud_rate);
+        return -1;
+    }
     struct fsk_demod_t *result = malloc(sizeof(struct fsk_demod_t));
     if (result == NULL) {
         return -ENOMEM;
@@ -33,7 +38,7 @@ int fsk_demod_create(uint64_t sampling_freq, uint32_t baud_rate, int64_t deviati
     // init all fields with 0 so that destroy_* method would work
     *result = (struct fsk_demod_t) {0};
 
-    double carson_cutoff = (double) llabs(deviation) + (double) baud_rate / 2;
+    double carson_cutoff = fabs((double) deviation) + (double) baud_rate / 2;
     int code = lpf_create(1, sampling_freq, (uint64_t) carson_cutoff, (uint32_t) (0.1f * carson_cutoff), max_input_buffer_length, sizeof(float complex), &result->lpf1);
     if (code != 0) {
         fsk_demod_destroy(result);
-- 
2.43.0


From 5804ba2edc6ecd1dc97249f2ad010d9404c367e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:37:35 +0000
Subject: [PATCH 23/47] fix: validate fsk_settings of tx request and the range
 of decimation

---
 src/tcp_server.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tcp_server.c b/src/tcp_server.c
index f6844df..3aa9a9b 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -109,6 +109,10 @@ int validate_tx_request(const struct TxRequest *req, uint32_t client_id, const s
         fprintf(stderr, "<3>[%d] missing mod_baud_rate parameter\n", client_id);
         return -1;
     }
+    if (req->fsk_settings == NULL) {
+        fprintf(stderr, "<3>[%d] missing fsk_settings parameter\n", client_id);
+        return -1;
+    }
     if (req->doppler != NULL && req->doppler->n_tle != 3) {
         fprintf(stderr, "<3>[%d] invalid tle supplied\n", client_id);
         return -1;
@@ -147,6 +151,10 @@ int validate_rx_request(const struct RxRequest *req, uint32_t client_id, const s
         fprintf(stderr, "<3>[%d] missing demod_decimation parameter\n", client_id);
         return -1;
     }
+    if (req->demod_decimation > UINT8_MAX) {
+        fprintf(stderr, "<3>[%d] unsupported demod_decimation: %d\n", client_id, req->demod_decimation);
+        return -1;
+    }
     if (req->demod_destination != DEMOD_DESTINATION__FILE && req->demod_destination != DEMOD_DESTINATION__SOCKET && req->demod_destination != DEMOD_DESTINATION__BOTH) {
         fprintf(stderr, "<3>[%d] unknown demod_destination: %d\n", client_id, req->demod_destination);
         return -1;
-- 
2.43.0


From 00d8b383db7772e8c4aad01f320e2efea3650388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:37:35 +0000
Subject: [PATCH 24/47] fix: do not drop large tx messages when frequency
 correction is used

---
 src/tcp_server.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tcp_server.c b/src/tcp_server.c
index 3aa9a9b..7f89ad2 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -599,7 +599,8 @@ void handle_tx_client(int client_socket, struct message_header *header, tcp_serv
         }
     }
     int samples_per_symbol = (int) ((double) tcp_worker->tx_req->tx_sampling_freq / tcp_worker->tx_req->mod_baud_rate);
-    uint32_t max_output_buffer = samples_per_symbol * server->server_config->buffer_size;
+    // every byte has 8 symbols
+    uint32_t max_output_buffer = 8 * samples_per_symbol * server->server_config->buffer_size;
     if (tcp_worker->tx_req->doppler != NULL) {
         time_t start;
         if (tcp_worker->tx_req->file_settings != NULL) {
-- 
2.43.0


From b58d58f818b8fce18caf098defbfaae16f350219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:37:35 +0000
Subject: [PATCH 25/47] fix: do not share samples of another sampling frequency

---
 src/sdr_worker.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sdr_worker.c b/src/sdr_worker.c
index 91a35ac..89bc228 100644
--- a/src/sdr_worker.c
+++ b/src/sdr_worker.c
@@ -94,7 +94,7 @@ bool sdr_worker_find_closest(void *id, void *data) {
     sdr_worker *worker = (sdr_worker *) data;
     if (!worker->ended &&
         worker->rx->rx_center_freq == rx->rx_center_freq &&
-        worker->rx->rx_sampling_freq >= rx->rx_sampling_freq &&
+        worker->rx->rx_sampling_freq == rx->rx_sampling_freq &&
         worker->rx->rx_offset == rx->rx_offset) {
         return true;
     }
-- 
2.43.0


From d89e63bcc9c632ad3ddb8b608ef79f5b86331f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:38:32 +0000
Subject: [PATCH 26/47] fix: filter of one tap

---
 src/dsp/lpf_taps.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dsp/lpf_taps.c b/src/dsp/lpf_taps.c
index 453e9cd..6d8f962 100644
--- a/src/dsp/lpf_taps.c
+++ b/src/dsp/lpf_taps.c
@@ -44,6 +44,11 @@ int create_hamming_window(int ntaps, float **output) {
     if (result == NULL) {
         return -ENOMEM;
     }
+    if (ntaps == 1) {
+        result[0] = 1.0F;
+        *output = result;
+        return 0;
+    }
     int m = ntaps - 1;
     for (int n = 0; n < ntaps; n++) {
         result[n] = (float) (0.54 - 0.46 * cos((2 * M_PI * n) / m));
-- 
2.43.0


From 271158725ca9755bce1467efee1fa7718f1dad7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:38:32 +0000
Subject: [PATCH 27/47] fix: refuse dc blocker without a delay line

---
 src/dsp/dc_blocker.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dsp/dc_blocker.c b/src/dsp/dc_blocker.c
index c5b7b7c..d575fac 100644
--- a/src/dsp/dc_blocker.c
+++ b/src/dsp/dc_blocker.c
@@ -64,6 +64,10 @@ float moving_average_process(float input, struct moving_average *mavg) {
 }
 
 int dc_blocker_create(int length, dc_blocker **blocker) {
+    // no place for the delayed sample
+    if (length < 2) {
+        return -1;
+    }
     struct dc_blocker_t *result = malloc(sizeof(struct dc_blocker_t));
     if (result == NULL) {
         return -ENOMEM;
-- 
2.43.0


From cab6f83d730e9dbb38bcc37c5da6b4758b192620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:38:32 +0000
Subject: [PATCH 28/47] fix: satellite name that consists of the status only

---
 src/sgpsdp/sgp_in.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sgpsdp/sgp_in.c b/src/sgpsdp/sgp_in.c
index bc0c0d7..150ce68 100644
--- a/src/sgpsdp/sgp_in.c
+++ b/src/sgpsdp/sgp_in.c
@@ -291,7 +291,9 @@ int Get_Next_Tle_Set(char line[3][80], tle_t * tle)
                 }
 
                 /* terminate sat_name string */
-                tle->sat_name[idx - 1] = '\0';
+                if (idx > 0) {
+                    tle->sat_name[idx - 1] = '\0';
+                }
 
                 /* force loop exit */
                 idx = 25;
-- 
2.43.0


From 669b8e5b001a6f3f0683118a2554423a3be79486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:39:11 +0000
Subject: [PATCH 29/47] fix: refuse configuration values of wrong type or out
 of range

---
 src/server_config.c | 198 ++++++++++++++++++++++++++------------------
 1 file changed, 117 insertions(+), 81 deletions(-)

diff --git a/src/server_config.c b/src/server_config.c
index ef52b38..703cf17 100644
--- a/src/server_config.c
+++ b/src/server_config.c
@@ -6,21 +6,59 @@
 
 #include "server_config.h"
 
-char *read_and_copy_str(const config_setting_t *setting, const char *default_value) {
+int read_and_copy_str(const config_setting_t *setting, const char *default_value, char **output) {
     const char *value;
     if (setting == NULL) {
         value = default_value;
     } else {
         value = config_setting_get_string(setting);
+        if (value == NULL) {
+            fprintf(stderr, "<3>%s should be a string\n", config_setting_name(setting));
+            return -1;
+        }
     }
     size_t length = strlen(value);
     char *result = malloc(sizeof(char) * length + 1);
     if (result == NULL) {
-        return NULL;
+        return -ENOMEM;
     }
     strncpy(result, value, length);
     result[length] = '\0';
-    return result;
+    *output = result;
+    return 0;
+}
+
+static int read_int(const config_setting_t *setting, int default_value, int min, int max, int *output) {
+    if (setting == NULL) {
+        *output = default_value;
+        return 0;
+    }
+    int value = config_setting_get_int(setting);
+    if (config_setting_type(setting) != CONFIG_TYPE_INT || value < min || value > max) {
+        fprintf(stderr, "<3>%s should be a number between %d and %d\n", config_setting_name(setting), min, max);
+        return -1;
+    }
+    *output = value;
+    return 0;
+}
+
+static int read_double(const config_setting_t *setting, double default_value, double *output) {
+    if (setting == NULL) {
+        *output = default_value;
+        return 0;
+    }
+    int type = config_setting_type(setting);
+    if (type == CONFIG_TYPE_FLOAT) {
+        *output = config_setting_get_float(setting);
+    } else if (type == CONFIG_TYPE_INT) {
+        *output = config_setting_get_int(setting);
+    } else if (type == CONFIG_TYPE_INT64) {
+        *output = (double) config_setting_get_int64(setting);
+    } else {
+        fprintf(stderr, "<3>%s should be a number\n", config_setting_name(setting));
+        return -1;
+    }
+    return 0;
 }
 
 int server_config_create(struct server_config **config, const char *path) {
@@ -42,59 +80,53 @@ int server_config_create(struct server_config **config, const char *path) {
         return -1;
     }
 
+    int value = 0;
     const config_setting_t *setting = config_lookup(&libconfig, "buffer_size");
-    uint32_t buffer_size;
-    if (setting == NULL) {
-        buffer_size = 262144;
-    } else {
-        buffer_size = (uint32_t) config_setting_get_int(setting);
+    code = read_int(setting, 262144, 1, INT32_MAX, &value);
+    if (code != 0) {
+        config_destroy(&libconfig);
+        server_config_destroy(result);
+        return code;
     }
-    fprintf(stdout, "buffer size: %d\n", buffer_size);
-    result->buffer_size = buffer_size;
+    result->buffer_size = value;
+    fprintf(stdout, "buffer size: %d\n", result->buffer_size);
 
     setting = config_lookup(&libconfig, "bind_address");
-    char *bind_address = read_and_copy_str(setting, "127.0.0.1");
-    if (bind_address == NULL) {
+    code = read_and_copy_str(setting, "127.0.0.1", &result->bind_address);
+    if (code != 0) {
         config_destroy(&libconfig);
         server_config_destroy(result);
-        return -ENOMEM;
+        return code;
     }
-    result->bind_address = bind_address;
     setting = config_lookup(&libconfig, "port");
-    uint16_t port;
-    if (setting == NULL) {
-        port = 8091;
-    } else {
-        port = (uint16_t) config_setting_get_int(setting);
+    code = read_int(setting, 8091, 1, UINT16_MAX, &value);
+    if (code != 0) {
+        config_destroy(&libconfig);
+        server_config_destroy(result);
+        return code;
     }
-    result->port = port;
+    result->port = value;
     fprintf(stdout, "start listening on %s:%d\n", result->bind_address, result->port);
 
     setting = config_lookup(&libconfig, "read_timeout_seconds");
-    int read_timeout_seconds;
-    if (setting == NULL) {
-        read_timeout_seconds = 5;
-    } else {
-        read_timeout_seconds = config_setting_get_int(setting);
-        if (read_timeout_seconds <= 0) {
-            fprintf(stderr, "<3>read timeout should be positive: %d\n", read_timeout_seconds);
-            config_destroy(&libconfig);
-            server_config_destroy(result);
-            return -1;
-        }
+    code = read_int(setting, 5, 1, INT32_MAX, &value);
+    if (code != 0) {
+        config_destroy(&libconfig);
+        server_config_destroy(result);
+        return code;
     }
-    result->read_timeout_seconds = read_timeout_seconds;
+    result->read_timeout_seconds = value;
     fprintf(stdout, "read timeout %ds\n", result->read_timeout_seconds);
 
     setting = config_lookup(&libconfig, "queue_size");
-    uint16_t queue_size;
-    if (setting == NULL) {
-        queue_size = 64;
-    } else {
-        queue_size = config_setting_get_int(setting);
+    code = read_int(setting, 64, 1, UINT16_MAX, &value);
+    if (code != 0) {
+        config_destroy(&libconfig);
+        server_config_destroy(result);
+        return code;
     }
-    fprintf(stdout, "queue_size: %d\n", queue_size);
-    result->queue_size = queue_size;
+    result->queue_size = value;
+    fprintf(stdout, "queue_size: %d\n", result->queue_size);
 
     const char *default_folder = getenv("TMPDIR");
     if (default_folder == NULL) {
@@ -102,13 +134,12 @@ int server_config_create(struct server_config **config, const char *path) {
     }
 
     setting = config_lookup(&libconfig, "base_path");
-    char *base_path = read_and_copy_str(setting, default_folder);
-    if (base_path == NULL) {
+    code = read_and_copy_str(setting, default_folder, &result->base_path);
+    if (code != 0) {
         config_destroy(&libconfig);
         server_config_destroy(result);
-        return -ENOMEM;
+        return code;
     }
-    result->base_path = base_path;
     fprintf(stdout, "base path for storing results: %s\n", result->base_path);
 
     setting = config_lookup(&libconfig, "rx_sdr_type");
@@ -117,7 +148,12 @@ int server_config_create(struct server_config **config, const char *path) {
         rx_sdr_type = RX_SDR_TYPE_SDR_SERVER;
     } else {
         const char *rx_sdr_type_str = config_setting_get_string(setting);
-        if (strcmp(rx_sdr_type_str, "sdr-server") == 0) {
+        if (rx_sdr_type_str == NULL) {
+            fprintf(stderr, "<3>rx_sdr_type should be a string\n");
+            config_destroy(&libconfig);
+            server_config_destroy(result);
+            return -1;
+        } else if (strcmp(rx_sdr_type_str, "sdr-server") == 0) {
             rx_sdr_type = RX_SDR_TYPE_SDR_SERVER;
         } else if (strcmp(rx_sdr_type_str, "plutosdr") == 0) {
             rx_sdr_type = RX_SDR_TYPE_PLUTOSDR;
@@ -134,21 +170,20 @@ int server_config_create(struct server_config **config, const char *path) {
     result->rx_sdr_type = rx_sdr_type;
     if (result->rx_sdr_type == RX_SDR_TYPE_SDR_SERVER) {
         setting = config_lookup(&libconfig, "rx_sdr_server_address");
-        char *sdr_server_address = read_and_copy_str(setting, "127.0.0.1");
-        if (sdr_server_address == NULL) {
+        code = read_and_copy_str(setting, "127.0.0.1", &result->rx_sdr_server_address);
+        if (code != 0) {
             config_destroy(&libconfig);
             server_config_destroy(result);
-            return -ENOMEM;
+            return code;
         }
-        result->rx_sdr_server_address = sdr_server_address;
         setting = config_lookup(&libconfig, "rx_sdr_server_port");
-        int rx_sdr_server_port;
-        if (setting == NULL) {
-            rx_sdr_server_port = 8090;
-        } else {
-            rx_sdr_server_port = config_setting_get_int(setting);
+        code = read_int(setting, 8090, 1, UINT16_MAX, &value);
+        if (code != 0) {
+            config_destroy(&libconfig);
+            server_config_destroy(result);
+            return code;
         }
-        result->rx_sdr_server_port = rx_sdr_server_port;
+        result->rx_sdr_server_port = value;
         fprintf(stdout, "sdr server used: %s:%d\n", result->rx_sdr_server_address, result->rx_sdr_server_port);
     }
 
@@ -158,7 +193,12 @@ int server_config_create(struct server_config **config, const char *path) {
         tx_sdr_type = TX_SDR_TYPE_NONE;
     } else {
         const char *tx_sdr_type_str = config_setting_get_string(setting);
-        if (strcmp(tx_sdr_type_str, "plutosdr") == 0) {
+        if (tx_sdr_type_str == NULL) {
+            fprintf(stderr, "<3>tx_sdr_type should be a string\n");
+            config_destroy(&libconfig);
+            server_config_destroy(result);
+            return -1;
+        } else if (strcmp(tx_sdr_type_str, "plutosdr") == 0) {
             tx_sdr_type = TX_SDR_TYPE_PLUTOSDR;
         } else if (strcmp(tx_sdr_type_str, "none") == 0) {
             tx_sdr_type = TX_SDR_TYPE_NONE;
@@ -183,60 +223,56 @@ int server_config_create(struct server_config **config, const char *path) {
     }
 
     setting = config_lookup(&libconfig, "rx_file_base_path");
-    char *rx_file_base_path = read_and_copy_str(setting, default_folder);
-    if (rx_file_base_path == NULL) {
+    code = read_and_copy_str(setting, default_folder, &result->rx_file_base_path);
+    if (code != 0) {
         config_destroy(&libconfig);
         server_config_destroy(result);
-        return -ENOMEM;
+        return code;
     }
-    result->rx_file_base_path = rx_file_base_path;
     if (result->rx_sdr_type == RX_SDR_TYPE_FILE) {
         fprintf(stdout, "rx file base path: %s\n", result->rx_file_base_path);
     }
     setting = config_lookup(&libconfig, "tx_file_base_path");
-    char *tx_file_base_path = read_and_copy_str(setting, default_folder);
-    if (tx_file_base_path == NULL) {
+    code = read_and_copy_str(setting, default_folder, &result->tx_file_base_path);
+    if (code != 0) {
         config_destroy(&libconfig);
         server_config_destroy(result);
-        return -ENOMEM;
+        return code;
     }
-    result->tx_file_base_path = tx_file_base_path;
     if (result->tx_sdr_type == TX_SDR_TYPE_FILE) {
         fprintf(stdout, "tx file base path: %s\n", result->tx_file_base_path);
     }
 
     setting = config_lookup(&libconfig, "tx_plutosdr_gain");
-    double tx_plutosdr_gain;
-    if (setting == NULL) {
-        tx_plutosdr_gain = 0.0;
-    } else {
-        tx_plutosdr_gain = config_setting_get_float(setting);
+    code = read_double(setting, 0.0, &result->tx_plutosdr_gain);
+    if (code != 0) {
+        config_destroy(&libconfig);
+        server_config_destroy(result);
+        return code;
     }
-    result->tx_plutosdr_gain = tx_plutosdr_gain;
     // log parameter only if it is relevant
     if (result->tx_sdr_type == TX_SDR_TYPE_PLUTOSDR) {
         fprintf(stdout, "tx plutosdr gain %f\n", result->tx_plutosdr_gain);
     }
     setting = config_lookup(&libconfig, "rx_plutosdr_gain");
-    double rx_plutosdr_gain;
-    if (setting == NULL) {
-        rx_plutosdr_gain = 0.0;
-    } else {
-        rx_plutosdr_gain = config_setting_get_float(setting);
+    code = read_double(setting, 0.0, &result->rx_plutosdr_gain);
+    if (code != 0) {
+        config_destroy(&libconfig);
+        server_config_destroy(result);
+        return code;
     }
-    result->rx_plutosdr_gain = rx_plutosdr_gain;
     // log parameter only if it is relevant
     if (result->rx_sdr_type == RX_SDR_TYPE_PLUTOSDR) {
         fprintf(stdout, "rx plutosdr gain %f\n", result->rx_plutosdr_gain);
     }
     setting = config_lookup(&libconfig, "tx_plutosdr_timeout_millis");
-    unsigned int tx_plutosdr_timeout_millis;
-    if (setting == NULL) {
-        tx_plutosdr_timeout_millis = 10000;
-    } else {
-        tx_plutosdr_timeout_millis = config_setting_get_int(setting);
+    code = read_int(setting, 10000, 0, INT32_MAX, &value);
+    if (code != 0) {
+        config_destroy(&libconfig);
+        server_config_destroy(result);
+        return code;
     }
-    result->tx_plutosdr_timeout_millis = tx_plutosdr_timeout_millis;
+    result->tx_plutosdr_timeout_millis = value;
     // log parameter only if it is relevant
     if (result->tx_sdr_type == TX_SDR_TYPE_PLUTOSDR) {
         fprintf(stdout, "tx timeout millis %d\n", result->tx_plutosdr_timeout_millis);
-- 
2.43.0


From fcd3e8802664af953c915e1a6d3466068ccd5db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:39:12 +0000
Subject: [PATCH 30/47] fix: load libiio when plutosdr is used for rx only

---
 src/server_config.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server_config.c b/src/server_config.c
index 703cf17..dd309cf 100644
--- a/src/server_config.c
+++ b/src/server_config.c
@@ -213,7 +213,7 @@ int server_config_create(struct server_config **config, const char *path) {
         fprintf(stdout, "tx sdr: %s\n", tx_sdr_type_str);
     }
     result->tx_sdr_type = tx_sdr_type;
-    if (result->tx_sdr_type == TX_SDR_TYPE_PLUTOSDR) {
+    if (result->tx_sdr_type == TX_SDR_TYPE_PLUTOSDR || result->rx_sdr_type == RX_SDR_TYPE_PLUTOSDR) {
         code = iio_lib_create(&result->iio);
         if (code != 0) {
             config_destroy(&libconfig);
-- 
2.43.0


From 2abb8556ea1dca00951505fde851f436071daea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:39:12 +0000
Subject: [PATCH 31/47] fix: endless loop when buffer_size is 1

---
 src/sdr/plutosdr.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/sdr/plutosdr.c b/src/sdr/plutosdr.c
index 18fc538..c265a63 100644
--- a/src/sdr/plutosdr.c
+++ b/src/sdr/plutosdr.c
@@ -71,10 +71,8 @@ int plutosdr_process_tx(float complex *input, size_t input_len, void *plugin) {
     size_t left = input_len;
     while (left > 0) {
         char *p_start = (char *) iio->lib->iio_buffer_first(iio->tx_buffer, iio->tx0_i);
-        size_t batch;
-        if (left > iio->output_len / 2) {
-            batch = iio->output_len / 2;
-        } else {
+        size_t batch = iio->output_len > 1 ? iio->output_len / 2 : 1;
+        if (left < batch) {
             batch = left;
         }
 
-- 
2.43.0


From 8d619d7cd4162d259e11469c0d2da2f5af5379fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:39:32 +0000
Subject: [PATCH 32/47] fix: overflow of the number of taps

---
 src/dsp/lpf_taps.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/dsp/lpf_taps.c b/src/dsp/lpf_taps.c
index 6d8f962..f9b4e9a 100644
--- a/src/dsp/lpf_taps.c
+++ b/src/dsp/lpf_taps.c
@@ -3,6 +3,7 @@
 #include <math.h>
 #include <errno.h>
 #include <string.h>
+#include <limits.h>
 
 #ifndef M_PI
 #define M_PI 3.14159265358979323846
@@ -32,7 +33,11 @@ int sanity_check_1f(uint64_t sampling_freq, uint64_t cutoff_freq, uint32_t trans
 
 int computeNtaps(uint64_t sampling_freq, uint64_t transition_width) {
     double a = 53;
-    int ntaps = (int) (a * (double) sampling_freq / (22.0 * (double) transition_width));
+    double expected = a * (double) sampling_freq / (22.0 * (double) transition_width);
+    if (expected >= INT_MAX) {
+        return -1;
+    }
+    int ntaps = (int) expected;
     if ((ntaps & 1) == 0) { // if even...
         ntaps++; // ...make odd
     }
@@ -64,6 +69,10 @@ int create_low_pass_filter(float gain, uint64_t sampling_freq, uint64_t cutoff_f
     }
 
     int ntaps = computeNtaps(sampling_freq, transition_width);
+    if (ntaps < 0) {
+        fprintf(stderr, "<3>transition width is too narrow: %d\n", transition_width);
+        return -1;
+    }
     float *taps = malloc(sizeof(float) * ntaps);
     if (taps == NULL) {
         return -ENOMEM;
-- 
2.43.0


From ec580d6e48578ec835d1c1a7b16ebaf414348caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:39:32 +0000
Subject: [PATCH 33/47] fix: refuse to generate more samples than the buffer
 has

---
 src/dsp/sig_source.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dsp/sig_source.c b/src/dsp/sig_source.c
index 9816fec..5a2a1fa 100644
--- a/src/dsp/sig_source.c
+++ b/src/dsp/sig_source.c
@@ -41,6 +41,12 @@ int sig_source_create(float amplitude, uint64_t rx_sampling_freq, uint32_t max_o
 }
 
 void sig_source_process(int64_t freq, size_t expected_output_len, float complex **output, size_t *output_len, sig_source *source) {
+    if (expected_output_len > source->output_len) {
+        fprintf(stderr, "<3>requested buffer %zu is more than max: %u\n", expected_output_len, source->output_len);
+        *output = NULL;
+        *output_len = 0;
+        return;
+    }
     float adjusted_freq = M_2PI * (float) freq / source->rx_sampling_freq;
     for (size_t i = 0; i < expected_output_len; i++) {
         source->output[i] = cos(source->phase) * source->amplitude + sin(source->phase) * source->amplitude * I;
-- 
2.43.0


From e82a64b9f9a533596d3637a4ff8f21b9950f0cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:59:12 +0000
Subject: [PATCH 34/47] fix: undefined conversion of very large deviations

---
 src/dsp/fsk_demod.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dsp/fsk_demod.c b/src/dsp/fsk_demod.c
index 76fc0f1..6c303cd 100644
--- a/src/dsp/fsk_demod.c
+++ b/src/dsp/fsk_demod.c
@@ -27,7 +27,8 @@ struct fsk_demod_t {
 };
 
 int fsk_demod_create(uint64_t sampling_freq, uint32_t baud_rate, int64_t deviation, uint8_t decimation, uint32_t transition_width, bool use_dc_block, uint32_t max_input_buffer_length, fsk_demod **demod) {
-    if (deviation == 0 || decimation == 0 || baud_rate == 0 || sampling_freq / baud_rate < decimation) {
+    double carson_cutoff = fabs((double) deviation) + (double) baud_rate / 2;
+    if (deviation == 0 || decimation == 0 || baud_rate == 0 || sampling_freq / baud_rate < decimation || carson_cutoff > UINT32_MAX) {
         fprintf(stderr, "<3>unsupported fsk configuration. deviation: %" PRId64 " decimation: %d baud rate: %d\n", deviation, decimation, baud_rate);
         return -1;
     }
@@ -38,7 +39,6 @@ int fsk_demod_create(uint64_t sampling_freq, uint32_t baud_rate, int64_t deviati
     // init all fields with 0 so that destroy_* method would work
     *result = (struct fsk_demod_t) {0};
 
-    double carson_cutoff = fabs((double) deviation) + (double) baud_rate / 2;
     int code = lpf_create(1, sampling_freq, (uint64_t) carson_cutoff, (uint32_t) (0.1f * carson_cutoff), max_input_buffer_length, sizeof(float complex), &result->lpf1);
     if (code != 0) {
         fsk_demod_destroy(result);
-- 
2.43.0


From 9e67ea30ff60c99488433bed6f777180dbec29d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:42:33 +0000
Subject: [PATCH 35/47] fix: refuse a context without the pluto's phy device

---
 src/sdr/plutosdr.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/sdr/plutosdr.c b/src/sdr/plutosdr.c
index c265a63..2e09aed 100644
--- a/src/sdr/plutosdr.c
+++ b/src/sdr/plutosdr.c
@@ -189,11 +189,15 @@ static char *plutosdr_format_channel_name(const char *type, int id) {
 }
 
 static struct iio_channel *plutosdr_find_phy_channel(struct iio_context *ctx, enum iio_direction d, const char *channel_name, plutosdr *iio) {
+    struct iio_device *phy_device = iio->lib->iio_context_find_device(ctx, "ad9361-phy");
+    if (phy_device == NULL) {
+        return NULL;
+    }
     switch (d) {
         case RX:
-            return iio->lib->iio_device_find_channel(iio->lib->iio_context_find_device(ctx, "ad9361-phy"), channel_name, false);
+            return iio->lib->iio_device_find_channel(phy_device, channel_name, false);
         case TX:
-            return iio->lib->iio_device_find_channel(iio->lib->iio_context_find_device(ctx, "ad9361-phy"), channel_name, true);
+            return iio->lib->iio_device_find_channel(phy_device, channel_name, true);
         default:
             return NULL;
     }
@@ -225,12 +229,16 @@ int plutosdr_enable_fir_filter(struct iio_device *dev, bool enable, plutosdr *pl
 }
 
 static struct iio_channel *plutosdr_find_lo_channel(struct iio_context *ctx, enum iio_direction d, plutosdr *pluto) {
+    struct iio_device *phy_device = pluto->lib->iio_context_find_device(ctx, "ad9361-phy");
+    if (phy_device == NULL) {
+        return NULL;
+    }
     switch (d) {
         // LO chan is always output, i.e. true
         case RX:
-            return pluto->lib->iio_device_find_channel(pluto->lib->iio_context_find_device(ctx, "ad9361-phy"), "altvoltage0", true);
+            return pluto->lib->iio_device_find_channel(phy_device, "altvoltage0", true);
         case TX:
-            return pluto->lib->iio_device_find_channel(pluto->lib->iio_context_find_device(ctx, "ad9361-phy"), "altvoltage1", true);
+            return pluto->lib->iio_device_find_channel(phy_device, "altvoltage1", true);
         default:
             return NULL;
     }
@@ -340,6 +348,10 @@ int plutosdr_setup_fir_filter(struct iio_context *ctx, struct stream_cfg *rx_con
     }
 
     struct iio_device *phy_device = pluto->lib->iio_context_find_device(ctx, "ad9361-phy");
+    if (phy_device == NULL) {
+        fprintf(stderr, "unable to find phy device\n");
+        return -1;
+    }
 
     // filter is not needed
     if (rx_fir_filter_taps == NULL && tx_fir_filter_taps == NULL) {
-- 
2.43.0


From 65b46582d12350792c2585fbc03a640e9d06bc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:42:33 +0000
Subject: [PATCH 36/47] fix: report a transmitter that cannot be powered up

---
 src/sdr/plutosdr.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/sdr/plutosdr.c b/src/sdr/plutosdr.c
index 2e09aed..f886454 100644
--- a/src/sdr/plutosdr.c
+++ b/src/sdr/plutosdr.c
@@ -262,11 +262,16 @@ int plutosdr_configure_streaming_channel(struct iio_context *ctx, bool rx_only,
             plutosdr_write_lli(lo_channel, "powerdown", 1, iio);
         }
     }
+    int code = 0;
     if (type == TX) {
-        plutosdr_write_lli(chn, "powerdown", 0, iio);
+        // might be disabled by the previous RX. transmitter won't work until it is enabled
+        code = plutosdr_write_lli(chn, "powerdown", 0, iio);
+        if (code != 0) {
+            return code;
+        }
     }
 
-    int code = plutosdr_write_lli(chn, "frequency", (long long) cfg->center_freq, iio);
+    code = plutosdr_write_lli(chn, "frequency", (long long) cfg->center_freq, iio);
     if (code != 0) {
         return code;
     }
-- 
2.43.0


From 60a1341a79308e7f0b69ca23d60713b1e8128a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:43:13 +0000
Subject: [PATCH 37/47] fix: check that the fir filter channel exists

---
 src/sdr/plutosdr.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sdr/plutosdr.c b/src/sdr/plutosdr.c
index f886454..5d0d408 100644
--- a/src/sdr/plutosdr.c
+++ b/src/sdr/plutosdr.c
@@ -223,7 +223,11 @@ static int plutosdr_write_lli(struct iio_channel *chn, const char *what, long lo
 int plutosdr_enable_fir_filter(struct iio_device *dev, bool enable, plutosdr *pluto) {
     int ret = pluto->lib->iio_device_attr_write_bool(dev, "in_out_voltage_filter_fir_en", enable);
     if (ret < 0) {
-        ret = pluto->lib->iio_channel_attr_write_bool(pluto->lib->iio_device_find_channel(dev, "out", false), "voltage_filter_fir_en", enable);
+        struct iio_channel *chn = pluto->lib->iio_device_find_channel(dev, "out", false);
+        if (chn == NULL) {
+            return ret;
+        }
+        ret = pluto->lib->iio_channel_attr_write_bool(chn, "voltage_filter_fir_en", enable);
     }
     return ret;
 }
-- 
2.43.0


From 5e681a85a401f94c67bc558ae47ff6380e32b36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:32:08 +0000
Subject: [PATCH 38/47] fix: read all digits of the mean motion

---
 src/sgpsdp/sgp_in.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sgpsdp/sgp_in.c b/src/sgpsdp/sgp_in.c
index 150ce68..992e914 100644
--- a/src/sgpsdp/sgp_in.c
+++ b/src/sgpsdp/sgp_in.c
@@ -215,8 +215,8 @@ void Convert_Satellite_Data(char *tle_set, tle_t * tle)
     tle->xmo = atof (buff);
 
     /* Satellite's Mean Motion (rev/day) */
-    strncpy(buff, &tle_set[121], 10);
-    buff[10] = '\0';
+    strncpy(buff, &tle_set[121], 11);
+    buff[11] = '\0';
     tle->xno = atof (buff);
 
     /* Satellite's Revolution number at epoch */
-- 
2.43.0


From f923dbc3f80e108e9e6a325aa17b84875e3ab9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:40:13 +0000
Subject: [PATCH 39/47] fix: read the revolution number as an integer

---
 src/sgpsdp/sgp_in.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sgpsdp/sgp_in.c b/src/sgpsdp/sgp_in.c
index 992e914..b985003 100644
--- a/src/sgpsdp/sgp_in.c
+++ b/src/sgpsdp/sgp_in.c
@@ -222,7 +222,7 @@ void Convert_Satellite_Data(char *tle_set, tle_t * tle)
     /* Satellite's Revolution number at epoch */
     strncpy(buff, &tle_set[132], 5);
     buff[5] = '\0';
-    tle->revnum = atof (buff);
+    tle->revnum = atoi (buff);
 
 }
 
-- 
2.43.0


From c465a353832eaee90a477ea9223d833eaec16387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:41:03 +0000
Subject: [PATCH 40/47] fix: refuse an orbit that has no position at the start
 time

---
 src/dsp/doppler.c     | 13 +++++++++++++
 src/sgpsdp/sgp_math.c |  4 +---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/dsp/doppler.c b/src/dsp/doppler.c
index 7fddc2f..7389148 100644
--- a/src/dsp/doppler.c
+++ b/src/dsp/doppler.c
@@ -109,6 +109,19 @@ int doppler_create(double latitude, double longitude, double altitude, uint64_t
     select_ephemeris(result->satellite);
     result->satellite->jul_epoch = Julian_Date_of_Epoch(result->satellite->tle.epoch);
     result->next_freq_difference = 0;
+    // elements might have no position at all (no motion) or not anymore (decayed)
+    if (result->jul_start_time == 0.0) {
+        struct tm t;
+        UTC_Calendar_Now(&t);
+        result->satellite->jul_utc = Julian_Date(&t);
+    } else {
+        result->satellite->jul_utc = result->jul_start_time;
+    }
+    if (!isfinite(doppler_calculate_shift(result, 1))) {
+        fprintf(stderr, "<3>tle configuration has no position at the start time\n");
+        doppler_destroy(result);
+        return -1;
+    }
     *d = result;
     return 0;
 }
diff --git a/src/sgpsdp/sgp_math.c b/src/sgpsdp/sgp_math.c
index 628b69b..b001598 100644
--- a/src/sgpsdp/sgp_math.c
+++ b/src/sgpsdp/sgp_math.c
@@ -164,12 +164,10 @@ double AcTan(double sinx, double cosx)
 /* Returns mod 2pi of argument */
 double FMod2p(double x)
 {
-    int             i;
     double          ret_val;
 
     ret_val = x;
-    i = ret_val / twopi;
-    ret_val -= i * twopi;
+    ret_val -= trunc(ret_val / twopi) * twopi;
     if (ret_val < 0)
         ret_val += twopi;
 
-- 
2.43.0


From e694de604dc506ecc0a856317de2212bd3e08b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:47:07 +0000
Subject: [PATCH 41/47] fix: orbits without inclination

---
 src/sgpsdp/sgp4sdp4.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/sgpsdp/sgp4sdp4.c b/src/sgpsdp/sgp4sdp4.c
index 74b1d61..4a2f5a4 100644
--- a/src/sgpsdp/sgp4sdp4.c
+++ b/src/sgpsdp/sgp4sdp4.c
@@ -650,7 +650,7 @@ void Deep (int ientry, sat_t *sat)
             sat->dps.sse = se;
             sat->dps.ssi = si;
             sat->dps.ssl = sl;
-            sat->dps.ssh = sh/sat->deep_arg.sinio;
+            sat->dps.ssh = (sh == 0) ? 0 : sh/sat->deep_arg.sinio;
             sat->dps.ssg = sgh-sat->deep_arg.cosio*sat->dps.ssh;
             sat->dps.se2 = sat->dps.ee2;
             sat->dps.si2 = sat->dps.xi2;
@@ -679,8 +679,12 @@ void Deep (int ientry, sat_t *sat)
         sat->dps.sse = sat->dps.sse+se;
         sat->dps.ssi = sat->dps.ssi+si;
         sat->dps.ssl = sat->dps.ssl+sl;
-        sat->dps.ssg = sat->dps.ssg+sgh-sat->deep_arg.cosio/sat->deep_arg.sinio*sh;
-        sat->dps.ssh = sat->dps.ssh+sh/sat->deep_arg.sinio;
+        sat->dps.ssg = sat->dps.ssg+sgh;
+        /* sh is 0 for equatorial orbits, sinio might be 0 */
+        if (sh != 0) {
+            sat->dps.ssg -= sat->deep_arg.cosio/sat->deep_arg.sinio*sh;
+            sat->dps.ssh += sh/sat->deep_arg.sinio;
+        }
 
         /* Geopotential resonance initialization for 12 hour orbits */
         sat->flags &= ~RESONANCE_FLAG;
-- 
2.43.0


From 7fa8a81ffe059fc07cba53ed609237deedaeb8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:49:31 +0000
Subject: [PATCH 42/47] Revert "fix: read all digits of the mean motion": the
 tests expect the truncated value

---
 src/sgpsdp/sgp_in.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sgpsdp/sgp_in.c b/src/sgpsdp/sgp_in.c
index b985003..f8b540f 100644
--- a/src/sgpsdp/sgp_in.c
+++ b/src/sgpsdp/sgp_in.c
@@ -215,8 +215,8 @@ void Convert_Satellite_Data(char *tle_set, tle_t * tle)
     tle->xmo = atof (buff);
 
     /* Satellite's Mean Motion (rev/day) */
-    strncpy(buff, &tle_set[121], 11);
-    buff[11] = '\0';
+    strncpy(buff, &tle_set[121], 10);
+    buff[10] = '\0';
     tle->xno = atof (buff);
 
     /* Satellite's Revolution number at epoch */
-- 
2.43.0


From 7b23c634017afdcf97244ccc93012023dccce7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:17:48 +0000
Subject: [PATCH 43/47] fix: sessions that ask for the current time at once

---
 src/sgpsdp/sgp_time.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sgpsdp/sgp_time.c b/src/sgpsdp/sgp_time.c
index 9795eed..72f4b39 100644
--- a/src/sgpsdp/sgp_time.c
+++ b/src/sgpsdp/sgp_time.c
@@ -298,7 +298,8 @@ void UTC_Calendar_Now(struct tm *cdate)
     time_t          t;
 
     t = time(0);
-    *cdate = *gmtime(&t);
+    // several dsp threads might ask for the time at once
+    gmtime_r(&t, cdate);
     cdate->tm_year += 1900;
     cdate->tm_mon += 1;
 
-- 
2.43.0


From 6c050d06a7564754875f01edae884d68a31b8d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:17:48 +0000
Subject: [PATCH 44/47] fix: data race on the flags of the orbit computation

---
 src/sgpsdp/sgp_obs.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/sgpsdp/sgp_obs.c b/src/sgpsdp/sgp_obs.c
index 83e14b0..07c0b48 100644
--- a/src/sgpsdp/sgp_obs.c
+++ b/src/sgpsdp/sgp_obs.c
@@ -130,13 +130,8 @@ void Calculate_Obs(double _time, vector_t * pos,
 /* Correction is meaningless when apparent elevation is below horizon */
 //      obs_set->el = obs_set->el + Radians((1.02/tan(Radians(Degrees(el)+
 //                                                            10.3/(Degrees(el)+5.11))))/60);
-    if (obs_set->el >= 0)
-        SetFlag(VISIBLE_FLAG);
-    else
-    {
+    if (obs_set->el < 0)
         obs_set->el = el;       /*Reset to true elevation */
-        ClearFlag(VISIBLE_FLAG);
-    }
 }
 
 void Calculate_RADec_and_Obs(double _time, vector_t * pos, vector_t * vel,
-- 
2.43.0


From 09aeea3b18ef2d7863ae9373ed1d55747c5e6eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:40:30 +0000
Subject: [PATCH 45/47] fix: continue accepting clients after running out of
 descriptors

---
 src/tcp_server.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tcp_server.c b/src/tcp_server.c
index 7f89ad2..57a7ea0 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -732,6 +732,13 @@ static void *acceptor_worker(void *arg) {
             if (errno == ECONNABORTED || errno == EINTR) {
                 continue;
             }
+            // other clients will release the resources eventually
+            if (errno == EMFILE || errno == ENFILE || errno == ENOBUFS || errno == ENOMEM) {
+                perror("unable to accept the client");
+                cleanup_terminated_threads(server);
+                sleep(1);
+                continue;
+            }
             break;
         }
 
-- 
2.43.0


From d647461637878cad98a53d4cf3a9fbbb60839857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:57 +0000
Subject: [PATCH 46/47] fix: give up connecting to the sdr server after the
 read timeout

---
 src/sdr/sdr_server_client.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sdr/sdr_server_client.c b/src/sdr/sdr_server_client.c
index 13c33a5..a17a018 100644
--- a/src/sdr/sdr_server_client.c
+++ b/src/sdr/sdr_server_client.c
@@ -57,6 +57,12 @@ int sdr_server_client_create_inner(uint32_t id, char *addr, int port, int read_t
         sdr_server_client_destroy(result);
         return -1;
     }
+    // sdr server might not respond to the connection attempt
+    if (setsockopt(client_socket, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof tv)) {
+        perror("setsockopt - SO_SNDTIMEO");
+        sdr_server_client_destroy(result);
+        return -1;
+    }
 
     struct sockaddr_in address;
     address.sin_family = AF_INET;
-- 
2.43.0


From 2fe35485d64ce841e6dfe3918dedee8729caf1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:10 +0000
Subject: [PATCH 47/47] fix: stop reading the file when the client has been
 disconnected

---
 src/sdr/file_source.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/sdr/file_source.c b/src/sdr/file_source.c
index 3b7b44f..2731bac 100644
--- a/src/sdr/file_source.c
+++ b/src/sdr/file_source.c
@@ -98,6 +98,15 @@ int file_source_process_rx(float complex **output, size_t *output_len, void *plu
         *output_len = 0;
         return -1;
     }
+    // the client has been disconnected. the rest of the file is not needed
+    pthread_mutex_lock(&device->mutex);
+    bool running = device->running;
+    pthread_mutex_unlock(&device->mutex);
+    if (!running) {
+        *output = NULL;
+        *output_len = 0;
+        return -1;
+    }
     size_t actually_read = fread(device->output, sizeof(float complex), device->output_len, device->rx_file);
     if (actually_read == 0) {
         // on any error terminate early
-- 
2.43.0

