From 9f577f42dce8b6a5a9b604290d79dd5e7a18be36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:28 +0000
Subject: [PATCH 1/9] fix: do not dereference a NULL dispatcher if startup
 fails

---
 spiped/main.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spiped/main.c b/spiped/main.c
index 60110b2..80b3f10 100644
--- a/spiped/main.c
+++ b/spiped/main.c
@@ -391,7 +391,8 @@ main(int argc, char * argv[])
 	exit(0);
 
 err7:
-	dispatch_shutdown(dispatch_cookie);
+	if (dispatch_cookie != NULL)
+		dispatch_shutdown(dispatch_cookie);
 err6:
 	if ((s != -1) && close(s))
 		warnp("close");
-- 
2.43.0


From 005cf39a531bf80f885c45b3cf51e38d45438ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:28 +0000
Subject: [PATCH 2/9] fix: accept port number 0 with IP addresses, as needed
 for -b without port

---
 libcperciva/util/sock.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libcperciva/util/sock.c b/libcperciva/util/sock.c
index f86aea2..492b717 100644
--- a/libcperciva/util/sock.c
+++ b/libcperciva/util/sock.c
@@ -279,8 +279,12 @@ sock_resolve(const char * addr)
 	ips = &s[1];
 	ips[strlen(ips) - 1] = '\0';
 
-	/* Parse the port number in base 10, no trailing characters. */
-	if (PARSENUM_EX(&p, ports, 1, 65535, 10, 0)) {
+	/*
+	 * Parse the port number in base 10, no trailing characters.  Port 0
+	 * is valid: it asks the operating system to pick a port number (see
+	 * sock_addr_ensure_port()).
+	 */
+	if (PARSENUM_EX(&p, ports, 0, 65535, 10, 0)) {
 		warn0("Invalid port number: %s", ports);
 		goto err1;
 	}
-- 
2.43.0


From c83b53c99a5325a12e0a675153626387440ed105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:28 +0000
Subject: [PATCH 3/9] fix: do not expire very long timeouts immediately

---
 libcperciva/events/events_timer.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/libcperciva/events/events_timer.c b/libcperciva/events/events_timer.c
index e4033bc..6f5d21b 100644
--- a/libcperciva/events/events_timer.c
+++ b/libcperciva/events/events_timer.c
@@ -18,6 +18,9 @@ struct timerrec {
 /* This also tracks whether we've initialized the atexit function. */
 static struct timerqueue * Q = NULL;
 
+/* The longest timeout accepted by events_timer_register_double (34 years). */
+#define MAXTIMEO	((time_t)1 << 30)
+
 static void events_timer_shutdown(void);
 
 /* Set tv := <current time> + tdelta. */
@@ -105,9 +108,19 @@ events_timer_register_double(int (* func)(void *), void * cookie,
 {
 	struct timeval tv;
 
-	/* Convert timeo to a struct timeval. */
-	tv.tv_sec = (time_t)timeo;
-	tv.tv_usec = (suseconds_t)((timeo - (double)tv.tv_sec) * 1000000.0);
+	/*
+	 * Convert timeo to a struct timeval.  Use MAXTIMEO for anything longer
+	 * (including infinity), since time_t might not be able to represent
+	 * the value, or the sum of the value and the current time.
+	 */
+	if (timeo >= (double)MAXTIMEO) {
+		tv.tv_sec = MAXTIMEO;
+		tv.tv_usec = 0;
+	} else {
+		tv.tv_sec = (time_t)timeo;
+		tv.tv_usec =
+		    (suseconds_t)((timeo - (double)tv.tv_sec) * 1000000.0);
+	}
 
 	/* Schedule the timeout. */
 	return (events_timer_register(func, cookie, &tv));
-- 
2.43.0


From 00bbdd43a60d3d717dd0c4355feba40d5532a099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:58 +0000
Subject: [PATCH 4/9] fix: dnsthread: handle requests and shutdown while an
 answer is undelivered

Between the resolver thread finishing and the event loop delivering the
answer, dnsthread_resolveone() overwrote the outstanding callback and leaked
the address instead of failing with EALREADY, and dnsthread_kill() left the
event for the closed wakeup socket registered (and leaked the request).  A
thread killed while resolving was never detached.
---
 lib/dnsthread/dnsthread.c | 57 +++++++++++++++++++++++++++++++--------
 1 file changed, 46 insertions(+), 11 deletions(-)

diff --git a/lib/dnsthread/dnsthread.c b/lib/dnsthread/dnsthread.c
index 1733b6f..121aa1f 100644
--- a/lib/dnsthread/dnsthread.c
+++ b/lib/dnsthread/dnsthread.c
@@ -24,6 +24,7 @@ struct dnsthread_internal {
 	/* State management. */
 	int state;		/* THREAD_* as below. */
 	int wakeupsock[2];	/* Writes to [0], reads from [1]. */
+	int pending;		/* A callback is owed (main thread only). */
 
 	/* Address resolution variables. */
 	char * addr;		/* Address to be resolved. */
@@ -124,6 +125,10 @@ workthread(void * cookie)
 			T->state = THREAD_SLEEPING;
 	} while (1);
 
+	/* Discard any request for which no callback was performed. */
+	free(T->addr);
+	sock_addr_freelist(T->sas);
+
 	/* Close the socket pair. */
 	if (close(T->wakeupsock[1]))
 		warnp("close");
@@ -192,8 +197,11 @@ dnsthread_spawn(void)
 		goto err4;
 	}
 
-	/* The thread starts out sleeping. */
+	/* The thread starts out sleeping, with no request. */
 	T->state = THREAD_SLEEPING;
+	T->pending = 0;
+	T->addr = NULL;
+	T->sas = NULL;
 
 	/* Create the thread. */
 	if ((rc = pthread_create(&T->thr, NULL, workthread, T)) != 0) {
@@ -251,8 +259,11 @@ dnsthread_resolveone(DNSTHREAD T, const char * addr,
 		goto err0;
 	}
 
-	/* If the resolver is already busy, fail. */
-	if (T->state == THREAD_HASWORK) {
+	/*
+	 * If the resolver is already busy (or has an answer which has not been
+	 * delivered yet), fail.
+	 */
+	if (T->pending) {
 		err = EALREADY;
 		goto ealready;
 	}
@@ -265,6 +276,14 @@ dnsthread_resolveone(DNSTHREAD T, const char * addr,
 	T->callback = callback;
 	T->cookie = cookie;
 
+	/* We want a callback when the worker thread pokes us. */
+	if (events_network_register(callback_resolveone, T, T->wakeupsock[1],
+	    EVENTS_NETWORK_OP_READ)) {
+		warnp("Error registering wakeup listener");
+		goto err2;
+	}
+	T->pending = 1;
+
 	/* There is now work for the thread to do. */
 	T->state = THREAD_HASWORK;
 
@@ -274,13 +293,6 @@ dnsthread_resolveone(DNSTHREAD T, const char * addr,
 		goto err1;
 	}
 
-	/* We want a callback when the worker thread pokes us. */
-	if (events_network_register(callback_resolveone, T, T->wakeupsock[1],
-	    EVENTS_NETWORK_OP_READ)) {
-		warnp("Error registering wakeup listener");
-		goto err1;
-	}
-
 ealready:
 	/* Release the mutex. */
 	if ((rc = pthread_mutex_unlock(&T->mtx)) != 0) {
@@ -295,6 +307,9 @@ ealready:
 	/* Success! */
 	return (0);
 
+err2:
+	free(T->addr);
+	T->addr = NULL;
 err1:
 	pthread_mutex_unlock(&T->mtx);
 err0:
@@ -328,15 +343,20 @@ callback_resolveone(void * cookie)
 
 	/* Free the (strduped) address which was to be resolved. */
 	free(T->addr);
+	T->addr = NULL;
 
 	/* Grab the result. */
 	sas = T->sas;
+	T->sas = NULL;
 	res_errno = T->res_errno;
 
 	/* Grab the callback. */
 	callback = T->callback;
 	cb_cookie = T->cookie;
 
+	/* We're ready for another request. */
+	T->pending = 0;
+
 	/* Release the mutex. */
 	if ((rc = pthread_mutex_unlock(&T->mtx)) != 0) {
 		warn0("pthread_mutex_unlock: %s", strerror(rc));
@@ -378,6 +398,13 @@ dnsthread_kill(DNSTHREAD T)
 	/* Grab the thread ID. */
 	thr = T->thr;
 
+	/* If we were waiting for an answer, we don't want it any more. */
+	if (T->pending) {
+		events_network_cancel(T->wakeupsock[1],
+		    EVENTS_NETWORK_OP_READ);
+		T->pending = 0;
+	}
+
 	/* Tell the thread to die, and wake it up. */
 	T->state = THREAD_SUICIDE;
 	if ((rc = pthread_cond_signal(&T->cv)) != 0) {
@@ -391,12 +418,20 @@ dnsthread_kill(DNSTHREAD T)
 		goto err0;
 	}
 
-	/* If the thread was sleeping, wait for it to wake up and die. */
+	/*
+	 * If the thread was sleeping, wait for it to wake up and die; if it is
+	 * busy, let it die on its own once it has finished.
+	 */
 	if (ostate == THREAD_SLEEPING) {
 		if ((rc = pthread_join(thr, NULL)) != 0) {
 			warn0("pthread_join: %s", strerror(rc));
 			goto err0;
 		}
+	} else {
+		if ((rc = pthread_detach(thr)) != 0) {
+			warn0("pthread_detach: %s", strerror(rc));
+			goto err0;
+		}
 	}
 
 	/* Success! */
-- 
2.43.0


From d6a5a6238bbd0128bc759318e90c838a69853c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 5/9] fix: netbuf_read: keep bytes received by a wait which is
 cancelled or ends early

If a wait was cancelled, or hit EOF or an error, after some but not all of the
requested bytes had been read from the socket, those bytes were in the buffer
but not counted, so that they were lost and the next wait presented a stream
with a gap.
---
 libcperciva/netbuf/netbuf_read.c | 48 ++++++++++++++++++++++++--------
 1 file changed, 37 insertions(+), 11 deletions(-)

diff --git a/libcperciva/netbuf/netbuf_read.c b/libcperciva/netbuf/netbuf_read.c
index bdbf8e3..3983d54 100644
--- a/libcperciva/netbuf/netbuf_read.c
+++ b/libcperciva/netbuf/netbuf_read.c
@@ -36,8 +36,10 @@ struct netbuf_read {
 	size_t buflen;			/* Length of buf. */
 	size_t bufpos;			/* Position of read pointer in buf. */
 	size_t datalen;			/* Position of write pointer in buf. */
+	size_t waitlen;			/* Wait until datalen reaches this. */
 };
 
+static int startread(struct netbuf_read *);
 static int callback_success(void *);
 static int callback_read(void *, ssize_t);
 
@@ -138,6 +140,34 @@ err0:
 	return (-1);
 }
 
+/*
+ * Read some data into the buffer.  We only ask for one byte at a time (while
+ * accepting as many as fit), so that we find out about all the bytes which
+ * were read even if we are cancelled or reach EOF before having enough.
+ */
+static int
+startread(struct netbuf_read * R)
+{
+
+	if (R->ssl) {
+		if ((R->read_cookie = (netbuf_read_ssl_func)(R->ssl,
+		    &R->buf[R->datalen], R->buflen - R->datalen, 1,
+		    callback_read, R)) == NULL)
+			goto err0;
+	} else {
+		if ((R->read_cookie = network_read(R->s, &R->buf[R->datalen],
+		    R->buflen - R->datalen, 1, callback_read, R)) == NULL)
+			goto err0;
+	}
+
+	/* Success! */
+	return (0);
+
+err0:
+	/* Failure! */
+	return (-1);
+}
+
 /**
  * netbuf_read_wait(R, len, callback, cookie):
  * Wait until ${R} has ${len} or more bytes of data buffered or an error
@@ -178,17 +208,9 @@ netbuf_read_wait(struct netbuf_read * R, size_t len,
 	}
 
 	/* Read data into the buffer. */
-	if (R->ssl) {
-		if ((R->read_cookie = (netbuf_read_ssl_func)(R->ssl,
-		    &R->buf[R->datalen], R->buflen - R->datalen,
-		    R->bufpos + len - R->datalen, callback_read, R)) == NULL)
-			goto err0;
-	} else {
-		if ((R->read_cookie = network_read(R->s, &R->buf[R->datalen],
-		    R->buflen - R->datalen, R->bufpos + len - R->datalen,
-		    callback_read, R)) == NULL)
-			goto err0;
-	}
+	R->waitlen = R->bufpos + len;
+	if (startread(R))
+		goto err0;
 
 done:
 	/* Success! */
@@ -238,6 +260,10 @@ callback_read(void * cookie, ssize_t lenread)
 	/* We've got more data. */
 	R->datalen += (size_t)lenread;
 
+	/* Keep on reading if we don't have enough yet. */
+	if (R->datalen < R->waitlen)
+		return (startread(R));
+
 	/* Perform callback. */
 	return ((R->callback)(R->cookie, 0));
 
-- 
2.43.0


From 3b557a92d94ebc3a39e263d4451702226b272eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:40 +0000
Subject: [PATCH 6/9] fix: spipe: do not run exit handlers while the event loop
 is running

When reading standard input or writing standard output fails, the thread
doing so called exit() while the main thread was in its event loop; the
exit handlers free the event loop's data, so spipe sometimes crashed
instead of exiting with status 1.
---
 spipe/pushbits.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/spipe/pushbits.c b/spipe/pushbits.c
index 78be162..57257a1 100644
--- a/spipe/pushbits.c
+++ b/spipe/pushbits.c
@@ -20,6 +20,10 @@ struct push {
 	int out;
 };
 
+/*
+ * Errors in these threads end the program with _exit(), not exit(): the exit
+ * handlers release data which the main thread's event loop is still using.
+ */
 static void
 workthread_cleanup(void * cookie)
 {
@@ -32,7 +36,7 @@ workthread_cleanup(void * cookie)
 	if (shutdown(P->out, SHUT_WR)) {
 		if (errno != ENOTSOCK) {
 			warnp("Error shutting down socket");
-			exit(1);
+			_exit(1);
 		}
 	}
 
@@ -57,7 +61,7 @@ workthread(void * cookie)
 			if (errno == EINTR)
 				continue;
 			warnp("Error reading");
-			exit(1);
+			_exit(1);
 		}
 
 		/* If we hit EOF, exit the loop. */
@@ -68,7 +72,7 @@ workthread(void * cookie)
 		if (noeintr_write(P->out, &P->buf, (size_t)readlen)
 		    != readlen) {
 			warnp("Error writing");
-			exit(1);
+			_exit(1);
 		}
 	} while (1);
 
-- 
2.43.0


From 3e73d412b36e09a64cdc97061bdc37266129c604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:11 +0000
Subject: [PATCH 7/9] fix: parsenum: reject NaN, which is not within any range

"spiped -r nan" was accepted although the value has to be between 0 and
infinity.
---
 libcperciva/util/parsenum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcperciva/util/parsenum.h b/libcperciva/util/parsenum.h
index d8406c9..3a6db81 100644
--- a/libcperciva/util/parsenum.h
+++ b/libcperciva/util/parsenum.h
@@ -151,7 +151,7 @@ parsenum_float(const char * s, double min, double max, int trailing)
 	val = strtod(s, &eptr);
 	if (eptr == s || (!trailing && (*eptr != '\0')))
 		errno = EINVAL;
-	else if ((val < min) || (val > max))
+	else if (!((val >= min) && (val <= max)))
 		errno = ERANGE;
 	return (val);
 }
-- 
2.43.0


From f1bb4ed2a1605e2797e1ecb7143181b1e2374778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:24 +0000
Subject: [PATCH 8/9] fix: parsenum: reject negative numbers for unsigned types

strtoumax() accepts a minus sign and negates the value modulo
UINTMAX_MAX + 1, so that "spiped -n -5" was accepted as a limit of about
2^64 connections.
---
 libcperciva/util/parsenum.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libcperciva/util/parsenum.h b/libcperciva/util/parsenum.h
index 3a6db81..002ea6d 100644
--- a/libcperciva/util/parsenum.h
+++ b/libcperciva/util/parsenum.h
@@ -7,6 +7,7 @@
 #include <math.h>
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 
 /* Handle compiler warnings about implicit variable conversion in PARSENUM. */
 #ifdef __clang__
@@ -189,6 +190,8 @@ parsenum_unsigned(const char * s, uintmax_t min, uintmax_t max,
 	val = strtoumax(s, &eptr, base);
 	if (eptr == s || (!trailing && (*eptr != '\0')))
 		errno = EINVAL;
+	else if ((val != 0) && (s[strspn(s, " \f\n\r\t\v")] == '-'))
+		errno = ERANGE;	/* strtoumax() negates modulo UINTMAX_MAX + 1. */
 	else if ((val < min) || (val > max) || (val > typemax))
 		errno = ERANGE;
 	return (val);
-- 
2.43.0


From 507669d94a02815f853e9f59fc72658bf9d602a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:45 +0000
Subject: [PATCH 9/9] fix: spiped: reject -r with -R whatever the value of -r

The usage is [-r <rtime> | -R], but "-r 60 -R" and "-r 0 -R" were
accepted.
---
 spiped/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spiped/main.c b/spiped/main.c
index 80b3f10..c7590d1 100644
--- a/spiped/main.c
+++ b/spiped/main.c
@@ -238,7 +238,7 @@ main(int argc, char * argv[])
 		usage();
 	if (!(opt_o > 0.0))
 		usage();
-	if ((opt_r != 60.0) && opt_R)
+	if (opt_r_set && opt_R)
 		usage();
 	if ((opt_s == NULL) || sock_addr_validate(opt_s))
 		usage();
-- 
2.43.0

