From a74b4fac3dcd4a5a5f6ee60a5102cdc6b4aad288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:46 +0000
Subject: [PATCH 001/138] fix: write the length of a 255 byte packet in one
 byte

MQTTSNPacket_len() sizes a packet whose total length is 255 with a one byte
length field, but MQTTSNPacket_encode() wrote the three byte form for it, so
every serializer wrote two bytes past the length it had checked and returned
a length that differs from the length field.
---
 MQTTSNPacket/src/MQTTSNPacket.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MQTTSNPacket/src/MQTTSNPacket.c b/MQTTSNPacket/src/MQTTSNPacket.c
index 86c1e90..87b130e 100644
--- a/MQTTSNPacket/src/MQTTSNPacket.c
+++ b/MQTTSNPacket/src/MQTTSNPacket.c
@@ -67,7 +67,7 @@ int MQTTSNPacket_encode(unsigned char* buf, int length)
 	int rc = 0;
 
 	FUNC_ENTRY;
-	if (length >= 255)
+	if (length > 255)
 	{
 		writeChar(&buf, 0x01);
 		writeInt(&buf, length);
-- 
2.43.0


From 1ef14d2ee0327f3f234a35c7543435eb84fb9655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:46 +0000
Subject: [PATCH 002/138] fix: reject a packet that has no message type when
 reading

MQTTSNPacket_read() and MQTTSNPacket_read_nb() read the message type from
outside the received data for 01 00 03, for a single byte and for no data.
---
 MQTTSNPacket/src/MQTTSNPacket.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MQTTSNPacket/src/MQTTSNPacket.c b/MQTTSNPacket/src/MQTTSNPacket.c
index 87b130e..b0e59e3 100644
--- a/MQTTSNPacket/src/MQTTSNPacket.c
+++ b/MQTTSNPacket/src/MQTTSNPacket.c
@@ -267,7 +267,7 @@ int MQTTSNPacket_read(unsigned char* buf, int buflen, int (*getfn)(unsigned char
 
 	/* 2. read the length.  This is variable in itself */
 	lenlen = MQTTSNPacket_decode(buf, len, &datalen);
-	if (datalen != len)
+	if (lenlen < 0 || datalen != len || len <= lenlen)
 		goto exit; /* there was an error */
 
 	rc = buf[lenlen]; /* return the packet type */
@@ -284,7 +284,7 @@ int MQTTSNPacket_read_nb(unsigned char* buf, int buflen)
 
 	/* 2. read the length.  This is variable in itself */
 	lenlen = MQTTSNPacket_decode(buf, len, &datalen);
-	if (datalen != len)
+	if (lenlen < 0 || datalen != len || len <= lenlen)
 		goto exit; /* there was an error */
 
 	rc = buf[lenlen]; /* return the packet type */
-- 
2.43.0


From fec46405939159dba7fc3264737ce681c002ae8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:46 +0000
Subject: [PATCH 003/138] fix: the DUP flag is deserialized as 1, not as 255

The one bit field was signed, so a set flag read back as -1.
---
 MQTTSNPacket/src/MQTTSNPacket.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MQTTSNPacket/src/MQTTSNPacket.h b/MQTTSNPacket/src/MQTTSNPacket.h
index 3d9b296..6592517 100644
--- a/MQTTSNPacket/src/MQTTSNPacket.h
+++ b/MQTTSNPacket/src/MQTTSNPacket.h
@@ -85,7 +85,7 @@ typedef union
 #if defined(REVERSED)
 	struct
 	{
-		int dup: 1;
+		unsigned int dup: 1;
 		unsigned int QoS : 2;
 		unsigned int retain : 1;
 		unsigned int will : 1;
@@ -100,7 +100,7 @@ typedef union
 		unsigned int will : 1;
 		unsigned int retain : 1;
 		unsigned int QoS : 2;
-		int dup: 1;
+		unsigned int dup: 1;
 	} bits;
 #endif
 } MQTTSNFlags;
-- 
2.43.0


From 8b8c37a38e447f50ace6636d2f8ae025e4d8be83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:46 +0000
Subject: [PATCH 004/138] fix: write the string whose length was checked, and
 clear a stale cstring when reading

MQTTSNstrlen() prefers the C string, writeMQTTSNString() preferred the counted
one, so a string with both set was written with a length that was not checked.
readMQTTSNString() left an earlier C string in place, which then hid the string
that was read.
---
 MQTTSNPacket/src/MQTTSNPacket.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MQTTSNPacket/src/MQTTSNPacket.c b/MQTTSNPacket/src/MQTTSNPacket.c
index b0e59e3..eba267b 100644
--- a/MQTTSNPacket/src/MQTTSNPacket.c
+++ b/MQTTSNPacket/src/MQTTSNPacket.c
@@ -191,13 +191,13 @@ int getLenStringLen(char* ptr)
 
 void writeMQTTSNString(unsigned char** pptr, MQTTSNString MQTTSNString)
 {
-	if (MQTTSNString.lenstring.len > 0)
+	if (MQTTSNString.cstring)
+		writeCString(pptr, MQTTSNString.cstring);
+	else if (MQTTSNString.lenstring.len > 0)
 	{
 		memcpy(*pptr, (const unsigned char*)MQTTSNString.lenstring.data, MQTTSNString.lenstring.len);
 		*pptr += MQTTSNString.lenstring.len;
 	}
-	else if (MQTTSNString.cstring)
-		writeCString(pptr, MQTTSNString.cstring);
 }
 
 
@@ -212,6 +212,7 @@ int readMQTTSNString(MQTTSNString* MQTTSNString, unsigned char** pptr, unsigned
 	int rc = 0;
 
 	FUNC_ENTRY;
+	MQTTSNString->cstring = NULL;
 	MQTTSNString->lenstring.len = enddata - *pptr;
 	if (MQTTSNString->lenstring.len > 0)
 	{
@@ -221,7 +222,6 @@ int readMQTTSNString(MQTTSNString* MQTTSNString, unsigned char** pptr, unsigned
 	else
 	{
 		MQTTSNString->lenstring.data = NULL;
-		MQTTSNString->cstring = NULL;
 	}
 	rc = 1;
 	FUNC_EXIT_RC(rc);
-- 
2.43.0


From 31e06ae06ed00d2e1c24d62c31847d331d7ffa52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:38 +0000
Subject: [PATCH 005/138] fix: deserializers stay inside the packet they are
 given

Most deserializers compared the declared length with the buffer only from above
(and one byte too loosely), so a message that declares, or is, shorter than its
fixed fields was read past its end, and payload and topic lengths came out
negative. A CONNACK of the wrong type was reported as a success. A QoS -1
PUBLISH may name a topic longer than the message. An empty WILLTOPIC (no flags,
no topic) is two bytes long.
---
 MQTTSNPacket/src/MQTTSNConnectClient.c      | 18 +++++++++---------
 MQTTSNPacket/src/MQTTSNConnectServer.c      | 16 +++++++++-------
 MQTTSNPacket/src/MQTTSNDeserializePublish.c | 12 +++++++-----
 MQTTSNPacket/src/MQTTSNSearchClient.c       |  4 ++--
 MQTTSNPacket/src/MQTTSNSearchServer.c       |  2 +-
 MQTTSNPacket/src/MQTTSNSubscribeClient.c    |  2 +-
 MQTTSNPacket/src/MQTTSNSubscribeServer.c    |  4 +++-
 MQTTSNPacket/src/MQTTSNUnsubscribeClient.c  |  2 +-
 MQTTSNPacket/src/MQTTSNUnsubscribeServer.c  |  4 +++-
 9 files changed, 36 insertions(+), 28 deletions(-)

diff --git a/MQTTSNPacket/src/MQTTSNConnectClient.c b/MQTTSNPacket/src/MQTTSNConnectClient.c
index e8a6d93..6aaf976 100644
--- a/MQTTSNPacket/src/MQTTSNConnectClient.c
+++ b/MQTTSNPacket/src/MQTTSNConnectClient.c
@@ -87,12 +87,12 @@ int MQTTSNDeserialize_connack(int* connack_rc, unsigned char* buf, int buflen)
 	unsigned char* curdata = buf;
 	unsigned char* enddata = NULL;
 	int rc = 0;
-	int mylen;
+	int mylen = 0;
 
 	FUNC_ENTRY;
-	curdata += (rc = MQTTSNPacket_decode(curdata, buflen, &mylen)); /* read length */
+	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
 	enddata = buf + mylen;
-	if (enddata - buf < 3)
+	if (mylen > buflen || enddata - curdata < 2)
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_CONNACK)
@@ -197,12 +197,12 @@ int MQTTSNDeserialize_pingresp(unsigned char* buf, int buflen)
 	unsigned char* curdata = buf;
 	unsigned char* enddata = NULL;
 	int rc = 0;
-	int mylen;
+	int mylen = 0;
 
 	FUNC_ENTRY;
 	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
 	enddata = buf + mylen;
-	if (enddata - curdata < 1)
+	if (curdata < buf || mylen > buflen || enddata - curdata < 1)
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_PINGRESP)
@@ -425,12 +425,12 @@ int MQTTSNDeserialize_willtopicresp(int* resp_rc, unsigned char* buf, int buflen
 	unsigned char* curdata = buf;
 	unsigned char* enddata = NULL;
 	int rc = 0;
-	int mylen;
+	int mylen = 0;
 
 	FUNC_ENTRY;
 	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
 	enddata = buf + mylen;
-	if (enddata - buf < 3)
+	if (mylen > buflen || enddata - curdata < 2)
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_WILLTOPICRESP)
@@ -457,12 +457,12 @@ int MQTTSNDeserialize_willmsgresp(int* resp_rc, unsigned char* buf, int buflen)
 	unsigned char* curdata = buf;
 	unsigned char* enddata = NULL;
 	int rc = 0;
-	int mylen;
+	int mylen = 0;
 
 	FUNC_ENTRY;
 	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
 	enddata = buf + mylen;
-	if (enddata - buf < 3)
+	if (mylen > buflen || enddata - curdata < 2)
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_WILLMSGRESP)
diff --git a/MQTTSNPacket/src/MQTTSNConnectServer.c b/MQTTSNPacket/src/MQTTSNConnectServer.c
index 1b707ef..bba4c03 100644
--- a/MQTTSNPacket/src/MQTTSNConnectServer.c
+++ b/MQTTSNPacket/src/MQTTSNConnectServer.c
@@ -40,7 +40,7 @@ int MQTTSNDeserialize_connect(MQTTSNPacket_connectData* data, unsigned char* buf
 	FUNC_ENTRY;
 	curdata += MQTTSNPacket_decode(curdata, len, &mylen); /* read length */
 	enddata = buf + mylen;
-	if (enddata - curdata < 2)
+	if (mylen > len || enddata - curdata < 5)
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_CONNECT)
@@ -107,12 +107,12 @@ int MQTTSNDeserialize_disconnect(int* duration, unsigned char* buf, int buflen)
 	unsigned char* curdata = buf;
 	unsigned char* enddata = NULL;
 	int rc = -1;
-	int mylen;
+	int mylen = 0;
 
 	FUNC_ENTRY;
 	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
 	enddata = buf + mylen;
-	if (enddata - curdata < 1)
+	if (curdata < buf || mylen > buflen || enddata - curdata < 1)
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_DISCONNECT)
@@ -204,7 +204,7 @@ int MQTTSNDeserialize_pingreq(MQTTSNString* clientID, unsigned char* buf, int le
 	FUNC_ENTRY;
 	curdata += MQTTSNPacket_decode(curdata, len, &mylen); /* read length */
 	enddata = buf + mylen;
-	if (enddata - curdata < 1)
+	if (curdata < buf || mylen > len || enddata - curdata < 1)
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_PINGREQ)
@@ -267,13 +267,15 @@ int MQTTSNDeserialize_willtopic1(int *willQoS, unsigned char *willRetain, MQTTSN
 	FUNC_ENTRY;
 	curdata += MQTTSNPacket_decode(curdata, len, &mylen); /* read length */
 	enddata = buf + mylen;
-	if (enddata > buf + len)
+	if (curdata < buf || mylen > len || enddata - curdata < 1)
 		goto exit;
 
 	if (readChar(&curdata) != packet_type)
 		goto exit;
 
-	flags.all = readChar(&curdata);
+	flags.all = 0;
+	if (enddata > curdata) /* an empty WILLTOPIC has neither flags nor topic */
+		flags.all = readChar(&curdata);
 	*willQoS = flags.bits.QoS;
 	*willRetain = flags.bits.retain;
 
@@ -329,7 +331,7 @@ int MQTTSNDeserialize_willmsg1(MQTTSNString* willMsg, unsigned char* buf, int le
 	FUNC_ENTRY;
 	curdata += MQTTSNPacket_decode(curdata, len, &mylen); /* read length */
 	enddata = buf + mylen;
-	if (enddata > buf + len)
+	if (curdata < buf || mylen > len || enddata - curdata < 1)
 		goto exit;
 
 	if (readChar(&curdata) != packet_type)
diff --git a/MQTTSNPacket/src/MQTTSNDeserializePublish.c b/MQTTSNPacket/src/MQTTSNDeserializePublish.c
index 98de94b..38d14be 100644
--- a/MQTTSNPacket/src/MQTTSNDeserializePublish.c
+++ b/MQTTSNPacket/src/MQTTSNDeserializePublish.c
@@ -45,7 +45,7 @@ int MQTTSNDeserialize_publish(unsigned char* dup, int* qos, unsigned char* retai
 	FUNC_ENTRY;
 	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
 	enddata = buf + mylen;
-	if (enddata - curdata > buflen)
+	if (mylen > buflen || enddata - curdata < 6)
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_PUBLISH)
@@ -73,6 +73,8 @@ int MQTTSNDeserialize_publish(unsigned char* dup, int* qos, unsigned char* retai
 
 	if (topic->type == MQTTSN_TOPIC_TYPE_NORMAL && *qos == 3)
 	{
+		if (topic->data.long_.len > enddata - curdata)
+			goto exit;
 		topic->data.long_.name = (char*)curdata;
 		curdata += topic->data.long_.len;
 	}
@@ -97,7 +99,7 @@ int MQTTSNDeserialize_puback(unsigned short* topicid, unsigned short* packetid,
 	FUNC_ENTRY;
 	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
 	enddata = buf + mylen;
-	if (enddata - curdata > buflen)
+	if (mylen > buflen || enddata - curdata < 6)
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_PUBACK)
@@ -132,7 +134,7 @@ int MQTTSNDeserialize_ack(unsigned char* type, unsigned short* packetid, unsigne
 	FUNC_ENTRY;
 	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
 	enddata = buf + mylen;
-	if (enddata - curdata > buflen)
+	if (mylen > buflen || enddata - curdata < 3)
 		goto exit;
 
 	*type = readChar(&curdata);
@@ -168,7 +170,7 @@ int MQTTSNDeserialize_register(unsigned short* topicid, unsigned short* packetid
 	FUNC_ENTRY;
 	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
 	enddata = buf + mylen;
-	if (enddata - curdata > buflen)
+	if (mylen > buflen || enddata - curdata < 5)
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_REGISTER)
@@ -208,7 +210,7 @@ int MQTTSNDeserialize_regack(unsigned short* topicid, unsigned short* packetid,
 	FUNC_ENTRY;
 	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
 	enddata = buf + mylen;
-	if (enddata - curdata > buflen)
+	if (mylen > buflen || enddata - curdata < 6)
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_REGACK)
diff --git a/MQTTSNPacket/src/MQTTSNSearchClient.c b/MQTTSNPacket/src/MQTTSNSearchClient.c
index af93c19..96b44cf 100644
--- a/MQTTSNPacket/src/MQTTSNSearchClient.c
+++ b/MQTTSNPacket/src/MQTTSNSearchClient.c
@@ -38,7 +38,7 @@ int MQTTSNDeserialize_advertise(unsigned char* gatewayid, unsigned short* durati
 	FUNC_ENTRY;
 	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
 	enddata = buf + mylen;
-	if (enddata - curdata > buflen)
+	if (mylen > buflen || enddata - curdata < 4)
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_ADVERTISE)
@@ -107,7 +107,7 @@ int MQTTSNDeserialize_gwinfo(unsigned char* gatewayid, unsigned short* gatewayad
 	FUNC_ENTRY;
 	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
 	enddata = buf + mylen;
-	if (enddata - curdata > buflen)
+	if (mylen > buflen || enddata - curdata < 2)
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_GWINFO)
diff --git a/MQTTSNPacket/src/MQTTSNSearchServer.c b/MQTTSNPacket/src/MQTTSNSearchServer.c
index c83fd16..c2850ac 100644
--- a/MQTTSNPacket/src/MQTTSNSearchServer.c
+++ b/MQTTSNPacket/src/MQTTSNSearchServer.c
@@ -70,7 +70,7 @@ int MQTTSNDeserialize_searchgw(unsigned char* radius, unsigned char* buf, int bu
 	FUNC_ENTRY;
 	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
 	enddata = buf + mylen;
-	if (enddata - curdata > buflen)
+	if (mylen > buflen || enddata - curdata < 2)
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_SEARCHGW)
diff --git a/MQTTSNPacket/src/MQTTSNSubscribeClient.c b/MQTTSNPacket/src/MQTTSNSubscribeClient.c
index 97680ed..f45f5f4 100644
--- a/MQTTSNPacket/src/MQTTSNSubscribeClient.c
+++ b/MQTTSNPacket/src/MQTTSNSubscribeClient.c
@@ -117,7 +117,7 @@ int MQTTSNDeserialize_suback(int* qos, unsigned short* topicid, unsigned short*
 	FUNC_ENTRY;
 	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
 	enddata = buf + mylen;
-	if (enddata - curdata > buflen)
+	if (mylen > buflen || enddata - curdata < 7)
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_SUBACK)
diff --git a/MQTTSNPacket/src/MQTTSNSubscribeServer.c b/MQTTSNPacket/src/MQTTSNSubscribeServer.c
index 54f6faa..bcd8a76 100644
--- a/MQTTSNPacket/src/MQTTSNSubscribeServer.c
+++ b/MQTTSNPacket/src/MQTTSNSubscribeServer.c
@@ -41,7 +41,7 @@ int MQTTSNDeserialize_subscribe(unsigned char* dup, int* qos, unsigned short* pa
 	FUNC_ENTRY;
 	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
 	enddata = buf + mylen;
-	if (enddata - curdata > buflen)
+	if (mylen > buflen || enddata - curdata < 4)
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_SUBSCRIBE)
@@ -60,6 +60,8 @@ int MQTTSNDeserialize_subscribe(unsigned char* dup, int* qos, unsigned short* pa
 		topicFilter->data.long_.len = enddata - curdata;
 		topicFilter->data.long_.name = (char*)curdata;
 	}
+	else if (enddata - curdata < 2)
+		goto exit;
 	else if (topicFilter->type == MQTTSN_TOPIC_TYPE_PREDEFINED)
 		topicFilter->data.id = readInt(&curdata);
 	else if (topicFilter->type == MQTTSN_TOPIC_TYPE_SHORT)
diff --git a/MQTTSNPacket/src/MQTTSNUnsubscribeClient.c b/MQTTSNPacket/src/MQTTSNUnsubscribeClient.c
index 9d952f7..56116d1 100644
--- a/MQTTSNPacket/src/MQTTSNUnsubscribeClient.c
+++ b/MQTTSNPacket/src/MQTTSNUnsubscribeClient.c
@@ -99,7 +99,7 @@ int MQTTSNDeserialize_unsuback(unsigned short* packetid, unsigned char* buf, int
 	FUNC_ENTRY;
 	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
 	enddata = buf + mylen;
-	if (enddata - curdata > buflen)
+	if (mylen > buflen || enddata - curdata < 3)
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_UNSUBACK)
diff --git a/MQTTSNPacket/src/MQTTSNUnsubscribeServer.c b/MQTTSNPacket/src/MQTTSNUnsubscribeServer.c
index fe727bc..840be46 100644
--- a/MQTTSNPacket/src/MQTTSNUnsubscribeServer.c
+++ b/MQTTSNPacket/src/MQTTSNUnsubscribeServer.c
@@ -29,7 +29,7 @@ int MQTTSNDeserialize_unsubscribe(unsigned short* packetid, MQTTSN_topicid* topi
 	FUNC_ENTRY;
 	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
 	enddata = buf + mylen;
-	if (enddata - curdata > buflen)
+	if (mylen > buflen || enddata - curdata < 4)
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_UNSUBSCRIBE)
@@ -44,6 +44,8 @@ int MQTTSNDeserialize_unsubscribe(unsigned short* packetid, MQTTSN_topicid* topi
 		topicFilter->data.long_.len = enddata - curdata;
 		topicFilter->data.long_.name = (char*)curdata;
 	}
+	else if (enddata - curdata < 2)
+		goto exit;
 	else if (topicFilter->type == MQTTSN_TOPIC_TYPE_PREDEFINED)
 		topicFilter->data.id = readInt(&curdata);
 	else if (topicFilter->type == MQTTSN_TOPIC_TYPE_SHORT)
-- 
2.43.0


From 9ea80ee8488b99175ec66bdb2b9225db3e8f7d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:38 +0000
Subject: [PATCH 006/138] fix: deserialize a DISCONNECT without duration as
 duration -1

That is what the function documents; the result was left unset.
---
 MQTTSNGateway/src/MQTTSNGWPacket.cpp   | 2 +-
 MQTTSNPacket/src/MQTTSNConnectServer.c | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWPacket.cpp b/MQTTSNGateway/src/MQTTSNGWPacket.cpp
index 72189db..f7a51ab 100644
--- a/MQTTSNGateway/src/MQTTSNGWPacket.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPacket.cpp
@@ -397,7 +397,7 @@ int MQTTSNPacket::getDISCONNECT(uint16_t* duration)
 {
     int dur = 0;
     int rc = MQTTSNDeserialize_disconnect(&dur, _buf, _bufLen);
-    *duration = (uint16_t) dur;
+    *duration = dur > 0 ? (uint16_t) dur : 0;
     return rc;
 }
 
diff --git a/MQTTSNPacket/src/MQTTSNConnectServer.c b/MQTTSNPacket/src/MQTTSNConnectServer.c
index bba4c03..787af1d 100644
--- a/MQTTSNPacket/src/MQTTSNConnectServer.c
+++ b/MQTTSNPacket/src/MQTTSNConnectServer.c
@@ -122,6 +122,8 @@ int MQTTSNDeserialize_disconnect(int* duration, unsigned char* buf, int buflen)
 		*duration = readInt(&curdata);
 	else if (enddata != curdata)
 		goto exit;
+	else
+		*duration = -1;
 
 	rc = 1;
 exit:
-- 
2.43.0


From ce4f8deaf6e294d6331995deff7981cdcf3265f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:46 +0000
Subject: [PATCH 007/138] fix: a topic filter such as +/# matches its parent
 level

---
 MQTTSNGateway/src/MQTTSNGWTopic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWTopic.cpp b/MQTTSNGateway/src/MQTTSNGWTopic.cpp
index 68cf1fe..1172c69 100644
--- a/MQTTSNGateway/src/MQTTSNGWTopic.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWTopic.cpp
@@ -148,7 +148,7 @@ bool Topic::isMatch(string* topicName)
         {
             string subtopic = topicName->substr(pos);
             string subtopict = _topicName->substr(tpos, tloc - tpos);
-            if (subtopic != subtopict)
+            if (subtopict != wildcards && subtopic != subtopict)
             {
                 return false;
             }
-- 
2.43.0


From 40b6148a8b4e805ec1703c5e6f3a57623dc2b504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:46 +0000
Subject: [PATCH 008/138] fix: look for wildcards only inside the topic name,
 which is not NUL terminated

---
 MQTTSNGateway/src/MQTTSNGWTopic.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWTopic.cpp b/MQTTSNGateway/src/MQTTSNGWTopic.cpp
index 1172c69..96131a2 100644
--- a/MQTTSNGateway/src/MQTTSNGWTopic.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWTopic.cpp
@@ -407,7 +407,8 @@ TopicIdMapElement::TopicIdMapElement(uint16_t msgId, uint16_t topicId, MQTTSN_to
 
     if (_type == MQTTSN_TOPIC_TYPE_NORMAL)
     {
-        if (strchr(topic->data.long_.name, '#') != 0 || strchr(topic->data.long_.name, '+') != 0)
+        if (memchr(topic->data.long_.name, '#', topic->data.long_.len) != 0
+                || memchr(topic->data.long_.name, '+', topic->data.long_.len) != 0)
         {
             _wildcard = 1;
         }
-- 
2.43.0


From 09e1cccf85ecd17e7ece29c5f3794f1740d59ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:46 +0000
Subject: [PATCH 009/138] fix: TopicIdMap::erase counts down only when it
 removed an element

---
 MQTTSNGateway/src/MQTTSNGWTopic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWTopic.cpp b/MQTTSNGateway/src/MQTTSNGWTopic.cpp
index 96131a2..6353b0f 100644
--- a/MQTTSNGateway/src/MQTTSNGWTopic.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWTopic.cpp
@@ -527,12 +527,12 @@ void TopicIdMap::erase(uint16_t msgId)
                 p->_next->_prev = p->_prev;
             }
             delete p;
+            _cnt--;
             break;
 
         }
         p = p->_next;
     }
-    _cnt--;
 }
 
 void TopicIdMap::clear(void)
-- 
2.43.0


From ca7ee8834211007094b486d6fa974bd238669b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:49 +0000
Subject: [PATCH 010/138] fix: the wildcard search of TopicIdMap also ends at a
 NUL

---
 MQTTSNGateway/src/MQTTSNGWTopic.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWTopic.cpp b/MQTTSNGateway/src/MQTTSNGWTopic.cpp
index 6353b0f..f694abd 100644
--- a/MQTTSNGateway/src/MQTTSNGWTopic.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWTopic.cpp
@@ -407,8 +407,8 @@ TopicIdMapElement::TopicIdMapElement(uint16_t msgId, uint16_t topicId, MQTTSN_to
 
     if (_type == MQTTSN_TOPIC_TYPE_NORMAL)
     {
-        if (memchr(topic->data.long_.name, '#', topic->data.long_.len) != 0
-                || memchr(topic->data.long_.name, '+', topic->data.long_.len) != 0)
+        size_t len = strnlen(topic->data.long_.name, topic->data.long_.len);
+        if (memchr(topic->data.long_.name, '#', len) != 0 || memchr(topic->data.long_.name, '+', len) != 0)
         {
             _wildcard = 1;
         }
-- 
2.43.0


From d2dffc4651c5f539d0a68233aa871d6e025e650a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:15 +0000
Subject: [PATCH 011/138] fix: read an MQTT packet that arrives in several
 pieces, and notice a connection closed in its middle

---
 MQTTSNGateway/src/MQTTGWPacket.cpp | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTGWPacket.cpp b/MQTTSNGateway/src/MQTTGWPacket.cpp
index 921bcee..62bb154 100644
--- a/MQTTSNGateway/src/MQTTGWPacket.cpp
+++ b/MQTTSNGateway/src/MQTTGWPacket.cpp
@@ -199,9 +199,10 @@ int MQTTGWPacket::recv(Network* network)
         {
             return -2;
         }
-        if (network->recv(&c, 1) == -1)
+        rc = network->recv(&c, 1);
+        if (rc <= 0)
         {
-            return -1;
+            return rc;
         }
         _remainingLength += (c & 127) * multiplier;
         multiplier *= 128;
@@ -217,16 +218,17 @@ int MQTTGWPacket::recv(Network* network)
             return -3;
         }
 
-        /* read Payload */
-        int remlen = network->recv(_data, _remainingLength);
-
-        if (remlen == -1)
-        {
-            return -1;
-        }
-        else if (remlen != _remainingLength)
+        /* read Payload, which may arrive in several pieces */
+        int remlen = 0;
+        while (remlen < _remainingLength)
         {
-            return -2;
+            int size = _remainingLength - remlen;
+            rc = network->recv(_data + remlen, size > 0xffff ? 0xffff : size);
+            if (rc <= 0)
+            {
+                return rc;
+            }
+            remlen += rc;
         }
     }
     return 1 + len + _remainingLength;
-- 
2.43.0


From f45a5581aa07e7800bad3dd35a03d735c66e4c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:15 +0000
Subject: [PATCH 012/138] fix: size the buffers of MQTTGWPacket::send and print
 by the packet, which may exceed 1024 bytes

---
 MQTTSNGateway/src/MQTTGWPacket.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTGWPacket.cpp b/MQTTSNGateway/src/MQTTGWPacket.cpp
index 62bb154..a302913 100644
--- a/MQTTSNGateway/src/MQTTGWPacket.cpp
+++ b/MQTTSNGateway/src/MQTTGWPacket.cpp
@@ -236,11 +236,15 @@ int MQTTGWPacket::recv(Network* network)
 
 int MQTTGWPacket::send(Network* network)
 {
-    unsigned char buf[MQTTSNGW_MAX_PACKET_SIZE];
-    memset(buf, 0, MQTTSNGW_MAX_PACKET_SIZE);
+    unsigned char* buf = (unsigned char*) calloc(getPacketLength(), 1);
+    if (!buf)
+    {
+        return -1;
+    }
     int len = getPacketData(buf);
-    return network->send(buf, len);
-
+    int rc = network->send(buf, len);
+    free(buf);
+    return rc;
 }
 
 int MQTTGWPacket::getAck(Ack* ack)
@@ -604,9 +608,14 @@ void MQTTGWPacket::setMsgId(int msgId)
 
 char* MQTTGWPacket::print(char* pbuf)
 {
-    uint8_t packetData[MQTTSNGW_MAX_PACKET_SIZE];
     char* ptr = pbuf;
     char** pptr = &pbuf;
+    uint8_t* packetData = (uint8_t*) calloc(getPacketLength(), 1);
+    if (!packetData)
+    {
+        *pbuf = 0;
+        return pbuf;
+    }
     int len = getPacketData(packetData);
     int size = len > SIZE_OF_LOG_PACKET ? SIZE_OF_LOG_PACKET : len;
     for (int i = 0; i < size; i++)
@@ -615,6 +624,7 @@ char* MQTTGWPacket::print(char* pbuf)
         *pptr += 3;
     }
     **pptr = 0;
+    free(packetData);
     return ptr;
 }
 
-- 
2.43.0


From 5619236630b44afbc872e90beb0fa87e407aabcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:39 +0000
Subject: [PATCH 013/138] fix: the readers of MQTTGWPacket reject a packet that
 is too short

---
 MQTTSNGateway/src/MQTTGWPacket.cpp | 44 ++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTGWPacket.cpp b/MQTTSNGateway/src/MQTTGWPacket.cpp
index a302913..d6c23a8 100644
--- a/MQTTSNGateway/src/MQTTGWPacket.cpp
+++ b/MQTTSNGateway/src/MQTTGWPacket.cpp
@@ -254,6 +254,10 @@ int MQTTGWPacket::getAck(Ack* ack)
     {
         return 0;
     }
+    if (_remainingLength < 2)
+    {
+        return 0;
+    }
     char* ptr = (char*) _data;
     ack->header.byte = _header.byte;
     ack->msgId = readInt((char**) &ptr);
@@ -262,7 +266,7 @@ int MQTTGWPacket::getAck(Ack* ack)
 
 int MQTTGWPacket::getCONNACK(Connack* resp)
 {
-    if (_header.bits.type != CONNACK)
+    if (_header.bits.type != CONNACK || _remainingLength < 2)
     {
         return 0;
     }
@@ -275,7 +279,7 @@ int MQTTGWPacket::getCONNACK(Connack* resp)
 
 int MQTTGWPacket::getSUBACK(unsigned short* msgId, unsigned char* rc)
 {
-    if (_header.bits.type != SUBACK)
+    if (_header.bits.type != SUBACK || _remainingLength < 3)
     {
         return 0;
     }
@@ -287,13 +291,19 @@ int MQTTGWPacket::getSUBACK(unsigned short* msgId, unsigned char* rc)
 
 int MQTTGWPacket::getPUBLISH(Publish* pub)
 {
-    if (_header.bits.type != PUBLISH)
+    int fixedlen = _header.bits.qos > 0 ? 4 : 2;
+    if (_header.bits.type != PUBLISH || _remainingLength < fixedlen)
     {
         return 0;
     }
     char* ptr = (char*) _data;
+    int topiclen = readInt((char**) &ptr);
+    if (topiclen > _remainingLength - fixedlen)
+    {
+        return 0;
+    }
     pub->header = _header;
-    pub->topiclen = readInt((char**) &ptr);
+    pub->topiclen = topiclen;
     pub->topic = (char*) _data + 2;
     ptr += pub->topiclen;
     if (_header.bits.qos > 0)
@@ -529,7 +539,7 @@ char* MQTTGWPacket::getMsgId(char* pbuf)
     case PUBCOMP:
     case SUBACK:
     case UNSUBACK:
-        sprintf(pbuf, " %02X%02X", _data[0], _data[1]);
+        sprintf(pbuf, " %04X", getMsgId());
         break;
     default:
         sprintf(pbuf, "    ");
@@ -563,7 +573,10 @@ int MQTTGWPacket::getMsgId(void)
     case UNSUBSCRIBE:
     case SUBACK:
     case UNSUBACK:
-        msgId = 256 * (unsigned char) _data[0] + (unsigned char) _data[1];
+        if (_remainingLength >= 2)
+        {
+            msgId = 256 * (unsigned char) _data[0] + (unsigned char) _data[1];
+        }
         break;
     default:
         break;
@@ -597,9 +610,12 @@ void MQTTGWPacket::setMsgId(int msgId)
     case PUBCOMP:
     case SUBACK:
     case UNSUBACK:
-        ptr = _data;
-        *ptr++ = (unsigned char) (msgId / 256);
-        *ptr = (unsigned char) (msgId % 256);
+        if (_remainingLength >= 2)
+        {
+            ptr = _data;
+            *ptr++ = (unsigned char) (msgId / 256);
+            *ptr = (unsigned char) (msgId % 256);
+        }
         break;
     default:
         break;
@@ -648,11 +664,15 @@ MQTTGWPacket& MQTTGWPacket::operator =(MQTTGWPacket& packet)
 UTF8String MQTTGWPacket::getTopic(void)
 {
     UTF8String str = { 0, nullptr };
-    if (_header.bits.type == SUBSCRIBE || _header.bits.type == UNSUBSCRIBE)
+    if ((_header.bits.type == SUBSCRIBE || _header.bits.type == UNSUBSCRIBE) && _remainingLength >= 4)
     {
         char* ptr = (char*) (_data + 2);
-        str.len = readInt(&ptr);
-        str.data = (char*) (_data + 4);
+        int len = readInt(&ptr);
+        if (len <= _remainingLength - 4)
+        {
+            str.len = len;
+            str.data = ptr;
+        }
     }
     return str;
 }
-- 
2.43.0


From e8e6bab44dc1f54d92ab77cbb9131ff8f6ab51d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:39 +0000
Subject: [PATCH 014/138] fix: MQTTGWPacket::setMsgId of a PUBLISH writes
 behind the topic name, not into it

---
 MQTTSNGateway/src/MQTTGWPacket.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTGWPacket.cpp b/MQTTSNGateway/src/MQTTGWPacket.cpp
index d6c23a8..45bbe62 100644
--- a/MQTTSNGateway/src/MQTTGWPacket.cpp
+++ b/MQTTSNGateway/src/MQTTGWPacket.cpp
@@ -593,14 +593,12 @@ void MQTTGWPacket::setMsgId(int msgId)
     {
     case PUBLISH:
         Publish pub;
-        pub.topiclen = 0;
-        pub.msgId = 0;
-        getPUBLISH(&pub);
-        pub.msgId = msgId;
-        ptr = _data + pub.topiclen;
-        writeInt(&ptr, pub.msgId);
-        *ptr++ = (unsigned char) (msgId / 256);
-        *ptr = (unsigned char) (msgId % 256);
+        if (getPUBLISH(&pub) && _header.bits.qos > 0)
+        {
+            ptr = _data + 2 + pub.topiclen;
+            *ptr++ = (unsigned char) (msgId / 256);
+            *ptr = (unsigned char) (msgId % 256);
+        }
         break;
     case SUBSCRIBE:
     case UNSUBSCRIBE:
-- 
2.43.0


From 3d3f7939c6d03e51c8c5ba53c7d9d0b511aff4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:39 +0000
Subject: [PATCH 015/138] fix: MQTTGWPacket::clearData forgets the memory it
 frees

---
 MQTTSNGateway/src/MQTTGWPacket.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MQTTSNGateway/src/MQTTGWPacket.cpp b/MQTTSNGateway/src/MQTTGWPacket.cpp
index 45bbe62..f99b8a5 100644
--- a/MQTTSNGateway/src/MQTTGWPacket.cpp
+++ b/MQTTSNGateway/src/MQTTGWPacket.cpp
@@ -507,6 +507,7 @@ void MQTTGWPacket::clearData(void)
     if (_data)
     {
         free(_data);
+        _data = nullptr;
     }
     _header.byte = 0;
     _remainingLength = 0;
-- 
2.43.0


From 18fdaaa36c7b460b4e82742654b4220af3634385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:39 +0000
Subject: [PATCH 016/138] fix: UTF8String holds the length of a topic of 256
 bytes or more

---
 MQTTSNGateway/src/MQTTGWPacket.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTGWPacket.h b/MQTTSNGateway/src/MQTTGWPacket.h
index 46df326..f0aa7b6 100644
--- a/MQTTSNGateway/src/MQTTGWPacket.h
+++ b/MQTTSNGateway/src/MQTTGWPacket.h
@@ -198,7 +198,7 @@ typedef struct
  */
 typedef struct
 {
-    unsigned char len;
+    unsigned short len;
     char* data;
 } UTF8String;
 
-- 
2.43.0


From 96b2c3e79083350e4d15bb231e7f0788ff8ef1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:03 +0000
Subject: [PATCH 017/138] fix: a TLS read that would block does not move the
 position in the buffer to -1

---
 MQTTSNGateway/src/linux/Network.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/MQTTSNGateway/src/linux/Network.cpp b/MQTTSNGateway/src/linux/Network.cpp
index c4c5a52..29e92d0 100644
--- a/MQTTSNGateway/src/linux/Network.cpp
+++ b/MQTTSNGateway/src/linux/Network.cpp
@@ -569,7 +569,6 @@ loop:
 		}
 	} while (SSL_pending(_ssl) && !readBlocked);
 
-	bpos += rlen;
 	while (true)
 	{
 		FD_ZERO(&rset);
-- 
2.43.0


From 04069f1add8d6223b609094b4d750085100195ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:47 +0000
Subject: [PATCH 018/138] fix: a MQTT-SN packet that cannot be serialized is
 empty instead of a copy of memory behind the buffer

---
 MQTTSNGateway/src/MQTTSNGWPacket.cpp | 10 +++++++++-
 MQTTSNGateway/src/MQTTSNGWPacket.h   |  2 +-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWPacket.cpp b/MQTTSNGateway/src/MQTTSNGWPacket.cpp
index f7a51ab..37b27e1 100644
--- a/MQTTSNGateway/src/MQTTSNGWPacket.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPacket.cpp
@@ -72,11 +72,19 @@ int MQTTSNPacket::serialize(uint8_t* buf)
     return _bufLen;
 }
 
-int MQTTSNPacket::desirialize(unsigned char* buf, unsigned short len)
+int MQTTSNPacket::desirialize(unsigned char* buf, int len)
 {
     if (_buf)
     {
         free(_buf);
+        _buf = nullptr;
+    }
+
+    if (len <= 0)
+    {
+        /* nothing received, or it could not be serialized */
+        _bufLen = 0;
+        return 0;
     }
 
     _buf = (unsigned char*) calloc(len, sizeof(unsigned char));
diff --git a/MQTTSNGateway/src/MQTTSNGWPacket.h b/MQTTSNGateway/src/MQTTSNGWPacket.h
index 4ac3007..bb8cdd2 100644
--- a/MQTTSNGateway/src/MQTTSNGWPacket.h
+++ b/MQTTSNGateway/src/MQTTSNGWPacket.h
@@ -34,7 +34,7 @@ public:
     int broadcast(SensorNetwork* network);
     int recv(SensorNetwork* network);
     int serialize(uint8_t* buf);
-    int desirialize(unsigned char* buf, unsigned short len);
+    int desirialize(unsigned char* buf, int len);
     int getType(void);
     unsigned char* getPacketData(void);
     int getPacketLength(void);
-- 
2.43.0


From 6f9270457337d8f09b7c249cfc33ae95bdf22bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:47 +0000
Subject: [PATCH 019/138] fix: find type, flags and message id of a MQTT-SN
 packet inside it, whatever its length field

---
 MQTTSNGateway/src/MQTTSNGWPacket.cpp | 223 +++++++++++----------------
 MQTTSNGateway/src/MQTTSNGWPacket.h   |   4 +
 2 files changed, 92 insertions(+), 135 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWPacket.cpp b/MQTTSNGateway/src/MQTTSNGWPacket.cpp
index 37b27e1..112780f 100644
--- a/MQTTSNGateway/src/MQTTSNGWPacket.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPacket.cpp
@@ -112,26 +112,88 @@ int MQTTSNPacket::recv(SensorNetwork* network)
 
 }
 
-int MQTTSNPacket::getType(void)
+/**
+ * Position of the message type, 0 if the packet has none.
+ */
+int MQTTSNPacket::getTypePos(void)
+{
+    int value = 0;
+    int p = MQTTSNPacket_decode(_buf, _bufLen, &value);
+    return (p > 0 && p < _bufLen) ? p : 0;
+}
+
+/**
+ * Position of the flags of PUBLISH, SUBSCRIBE and UNSUBSCRIBE, 0 if the packet has none.
+ */
+int MQTTSNPacket::getFlagsPos(void)
 {
-    if (_bufLen == 0)
+    int p = getTypePos();
+
+    if (p == 0 || p + 1 >= _bufLen)
     {
         return 0;
     }
-    int value = 0;
-    int p = MQTTSNPacket_decode(_buf, _bufLen, &value);
-    return _buf[p];
+
+    switch (_buf[p])
+    {
+    case MQTTSN_PUBLISH:
+    case MQTTSN_SUBSCRIBE:
+    case MQTTSN_UNSUBSCRIBE:
+        return p + 1;
+    default:
+        return 0;
+    }
 }
 
-bool MQTTSNPacket::isQoSMinusPUBLISH(void)
+/**
+ * Position of the message id, 0 if the packet has none.
+ */
+int MQTTSNPacket::getMsgIdPos(void)
 {
-    if (_bufLen == 0)
+    int p = getTypePos();
+
+    if (p == 0)
     {
-        return false;;
+        return 0;
     }
-    int value = 0;
-    int p = MQTTSNPacket_decode(_buf, _bufLen, &value);
-    return ((_buf[p] == MQTTSN_PUBLISH) && ((_buf[p + 1] & 0x60) == 0x60));
+
+    switch (_buf[p])
+    {
+    case MQTTSN_PUBLISH:
+    case MQTTSN_SUBACK:
+        p += 4;
+        break;
+    case MQTTSN_PUBACK:
+    case MQTTSN_REGISTER:
+    case MQTTSN_REGACK:
+        p += 3;
+        break;
+    case MQTTSN_SUBSCRIBE:
+    case MQTTSN_UNSUBSCRIBE:
+        p += 2;
+        break;
+    case MQTTSN_PUBREC:
+    case MQTTSN_PUBREL:
+    case MQTTSN_PUBCOMP:
+    case MQTTSN_UNSUBACK:
+        p += 1;
+        break;
+    default:
+        return 0;
+    }
+    return (p + 1 < _bufLen) ? p : 0;
+}
+
+int MQTTSNPacket::getType(void)
+{
+    int p = getTypePos();
+    return p > 0 ? _buf[p] : 0;
+}
+
+bool MQTTSNPacket::isQoSMinusPUBLISH(void)
+{
+    int p = getFlagsPos();
+    return p > 0 && getType() == MQTTSN_PUBLISH && (_buf[p] & 0x60) == 0x60;
 }
 
 unsigned char* MQTTSNPacket::getPacketData(void)
@@ -177,7 +239,8 @@ int MQTTSNPacket::setConnect(void)
 
 bool MQTTSNPacket::isAccepted(void)
 {
-    return (getType() == MQTTSN_CONNACK) && (_buf[2] == MQTTSN_RC_ACCEPTED);
+    int p = getTypePos();
+    return (getType() == MQTTSN_CONNACK) && p + 1 < _bufLen && (_buf[p + 1] == MQTTSN_RC_ACCEPTED);
 }
 
 int MQTTSNPacket::setCONNACK(uint8_t returnCode)
@@ -436,46 +499,14 @@ char* MQTTSNPacket::print(char* pbuf)
 
 char* MQTTSNPacket::getMsgId(char* pbuf)
 {
-    int value = 0;
-    int p = 0;
+    int p = getMsgIdPos();
 
-    switch (getType())
+    if (p > 0)
     {
-    case MQTTSN_PUBLISH:
-        p = MQTTSNPacket_decode(_buf, _bufLen, &value);
-        if (_buf[p + 1] & 0x80)
-        {
-            sprintf(pbuf, "+%02X%02X", _buf[p + 4], _buf[p + 5]);
-        }
-        else
-        {
-            sprintf(pbuf, " %02X%02X", _buf[p + 4], _buf[p + 5]);
-        }
-        break;
-    case MQTTSN_PUBACK:
-    case MQTTSN_REGISTER:
-    case MQTTSN_REGACK:
-        sprintf(pbuf, " %02X%02X", _buf[4], _buf[5]);
-        break;
-    case MQTTSN_PUBREC:
-    case MQTTSN_PUBREL:
-    case MQTTSN_PUBCOMP:
-    case MQTTSN_UNSUBACK:
-        sprintf(pbuf, " %02X%02X", _buf[2], _buf[3]);
-        break;
-    case MQTTSN_SUBSCRIBE:
-    case MQTTSN_UNSUBSCRIBE:
-        p = MQTTSNPacket_decode(_buf, _bufLen, &value);
-        sprintf(pbuf, " %02X%02X", _buf[p + 2], _buf[p + 3]);
-        break;
-    case MQTTSN_SUBACK:
-        sprintf(pbuf, " %02X%02X", _buf[5], _buf[6]);
-        break;
-    default:
-        sprintf(pbuf, "    ");
-        break;
+        sprintf(pbuf, "%c%02X%02X", getType() == MQTTSN_PUBLISH && isDuplicate() ? '+' : ' ', _buf[p], _buf[p + 1]);
     }
-    if (strcmp(pbuf, " 0000") == 0)
+
+    if (p == 0 || strcmp(pbuf, " 0000") == 0)
     {
         sprintf(pbuf, "    ");
     }
@@ -484,101 +515,23 @@ char* MQTTSNPacket::getMsgId(char* pbuf)
 
 int MQTTSNPacket::getMsgId(void)
 {
-    int value = 0;
-    int p = 0;
-    int msgId = 0;
-    char* ptr = 0;
-
-    switch (getType())
-    {
-    case MQTTSN_PUBLISH:
-        p = MQTTSNPacket_decode(_buf, _bufLen, &value);
-        ptr = (char*) _buf + p + 4;
-        msgId = readInt((char**) &ptr);
-        break;
-    case MQTTSN_PUBACK:
-    case MQTTSN_REGISTER:
-    case MQTTSN_REGACK:
-        ptr = (char*) _buf + 4;
-        msgId = readInt((char**) &ptr);
-        break;
-    case MQTTSN_PUBREC:
-    case MQTTSN_PUBREL:
-    case MQTTSN_PUBCOMP:
-    case MQTTSN_UNSUBACK:
-        ptr = (char*) _buf + 2;
-        msgId = readInt((char**) &ptr);
-        break;
-    case MQTTSN_SUBSCRIBE:
-    case MQTTSN_UNSUBSCRIBE:
-        p = MQTTSNPacket_decode(_buf, _bufLen, &value);
-        ptr = (char*) _buf + p + 2;
-        msgId = readInt((char**) &ptr);
-        break;
-    case MQTTSN_SUBACK:
-        ptr = (char*) _buf + 5;
-        msgId = readInt((char**) &ptr);
-        break;
-    default:
-        break;
-    }
-    return msgId;
+    int p = getMsgIdPos();
+    return p > 0 ? _buf[p] * 256 + _buf[p + 1] : 0;
 }
 
 void MQTTSNPacket::setMsgId(uint16_t msgId)
 {
-    int value = 0;
-    int p = 0;
-    //unsigned char* ptr = 0;
+    int p = getMsgIdPos();
 
-    switch (getType())
+    if (p > 0)
     {
-    case MQTTSN_PUBLISH:
-        p = MQTTSNPacket_decode(_buf, _bufLen, &value);
-        _buf[p + 4] = (unsigned char) (msgId / 256);
-        _buf[p + 5] = (unsigned char) (msgId % 256);
-        //ptr = _buf + p + 4;
-        //writeInt(&ptr, msgId);
-        break;
-    case MQTTSN_PUBACK:
-    case MQTTSN_REGISTER:
-    case MQTTSN_REGACK:
-        _buf[4] = (unsigned char) (msgId / 256);
-        _buf[5] = (unsigned char) (msgId % 256);
-        //ptr = _buf + 4;
-        //writeInt(&ptr, msgId);
-        break;
-    case MQTTSN_PUBREC:
-    case MQTTSN_PUBREL:
-    case MQTTSN_PUBCOMP:
-    case MQTTSN_UNSUBACK:
-        _buf[2] = (unsigned char) (msgId / 256);
-        _buf[3] = (unsigned char) (msgId % 256);
-        //ptr = _buf + 2;
-        //writeInt(&ptr, msgId);
-        break;
-    case MQTTSN_SUBSCRIBE:
-    case MQTTSN_UNSUBSCRIBE:
-        p = MQTTSNPacket_decode(_buf, _bufLen, &value);
-        _buf[p + 2] = (unsigned char) (msgId / 256);
-        _buf[p + 3] = (unsigned char) (msgId % 256);
-        //ptr = _buf + p + 2;
-        //writeInt(&ptr, msgId);
-        break;
-    case MQTTSN_SUBACK:
-        _buf[5] = (unsigned char) (msgId / 256);
-        _buf[6] = (unsigned char) (msgId % 256);
-        //ptr = _buf + 5;
-        //writeInt(&ptr, msgId);
-        break;
-    default:
-        break;
+        _buf[p] = (unsigned char) (msgId / 256);
+        _buf[p + 1] = (unsigned char) (msgId % 256);
     }
 }
 
 bool MQTTSNPacket::isDuplicate(void)
 {
-    int value = 0;
-    int p = MQTTSNPacket_decode(_buf, _bufLen, &value);
-    return (_buf[p + 1] & 0x80);
+    int p = getFlagsPos();
+    return p > 0 && (_buf[p] & 0x80);
 }
diff --git a/MQTTSNGateway/src/MQTTSNGWPacket.h b/MQTTSNGateway/src/MQTTSNGWPacket.h
index bb8cdd2..2bcf791 100644
--- a/MQTTSNGateway/src/MQTTSNGWPacket.h
+++ b/MQTTSNGateway/src/MQTTSNGWPacket.h
@@ -96,6 +96,10 @@ public:
     char* print(char* buf);
 
 private:
+    int getTypePos(void);
+    int getFlagsPos(void);
+    int getMsgIdPos(void);
+
     unsigned char* _buf;    // Ptr to a packet data
     int _bufLen; // length of the packet data
 };
-- 
2.43.0


From b58ff68b34087252f31a0940cfba927ef46c2264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:47 +0000
Subject: [PATCH 020/138] fix: MQTTSNPacket::getCONNACK reads the packet
 instead of overwriting it

---
 MQTTSNGateway/src/MQTTSNGWPacket.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWPacket.cpp b/MQTTSNGateway/src/MQTTSNGWPacket.cpp
index 112780f..e9d5203 100644
--- a/MQTTSNGateway/src/MQTTSNGWPacket.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPacket.cpp
@@ -402,7 +402,10 @@ int MQTTSNPacket::getCONNECT(MQTTSNPacket_connectData* data)
 
 int MQTTSNPacket::getCONNACK(uint8_t* returnCode)
 {
-    return MQTTSNSerialize_connack(_buf, _bufLen, (int) *returnCode);
+    int code = 0;
+    int rc = MQTTSNDeserialize_connack(&code, _buf, _bufLen);
+    *returnCode = (uint8_t) code;
+    return rc;
 }
 
 int MQTTSNPacket::getWILLTOPIC(int* willQoS, uint8_t* willRetain, MQTTSNString* willTopic)
-- 
2.43.0


From de55c022f3d7c68169d434768f66853bd9e4031b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:47 +0000
Subject: [PATCH 021/138] fix: MQTTSNPacket::getWILLTOPICUPD does not write
 four bytes to a one byte QoS

---
 MQTTSNGateway/src/MQTTSNGWPacket.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWPacket.cpp b/MQTTSNGateway/src/MQTTSNGWPacket.cpp
index e9d5203..aecd679 100644
--- a/MQTTSNGateway/src/MQTTSNGWPacket.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPacket.cpp
@@ -477,7 +477,10 @@ int MQTTSNPacket::getDISCONNECT(uint16_t* duration)
 
 int MQTTSNPacket::getWILLTOPICUPD(uint8_t* willQoS, uint8_t* willRetain, MQTTSNString* willTopic)
 {
-    return MQTTSNDeserialize_willtopicupd((int*) willQoS, (unsigned char*) willRetain, willTopic, _buf, _bufLen);
+    int qos = 0;
+    int rc = MQTTSNDeserialize_willtopicupd(&qos, (unsigned char*) willRetain, willTopic, _buf, _bufLen);
+    *willQoS = (uint8_t) qos;
+    return rc;
 }
 
 int MQTTSNPacket::getWILLMSGUPD(MQTTSNString* willMsg)
-- 
2.43.0


From 3d3e2d4e64cc9b2eb73e0b4dd62cc6a02bc40af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:47 +0000
Subject: [PATCH 022/138] fix: MQTTSNPacket::getPINGREQ looks at a PINGREQ

---
 MQTTSNGateway/src/MQTTSNGWPacket.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWPacket.cpp b/MQTTSNGateway/src/MQTTSNGWPacket.cpp
index aecd679..ed369e9 100644
--- a/MQTTSNGateway/src/MQTTSNGWPacket.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPacket.cpp
@@ -460,9 +460,10 @@ int MQTTSNPacket::getUNSUBSCRIBE(uint16_t* msgId, MQTTSN_topicid* topicFilter)
 
 int MQTTSNPacket::getPINGREQ(void)
 {
-    if (getType() == MQTTSN_PINGRESP && _bufLen > 2)
+    int p = getTypePos();
+    if (getType() == MQTTSN_PINGREQ && _bufLen > p + 1)
     {
-        return _bufLen - 2;
+        return _bufLen - p - 1;
     }
     return 0;
 }
-- 
2.43.0


From 2a56e2095cb3544487c1358e1f5e16a1ecc4560e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:47 +0000
Subject: [PATCH 023/138] fix: MQTTSNPacket::setConnect starts from initialised
 data

---
 MQTTSNGateway/src/MQTTSNGWPacket.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWPacket.cpp b/MQTTSNGateway/src/MQTTSNGWPacket.cpp
index ed369e9..4771b2e 100644
--- a/MQTTSNGateway/src/MQTTSNGWPacket.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPacket.cpp
@@ -231,7 +231,7 @@ int MQTTSNPacket::setConnect(void)
 {
     unsigned char buf[40];
     int buflen = sizeof(buf);
-    MQTTSNPacket_connectData data;
+    MQTTSNPacket_connectData data = MQTTSNPacket_connectData_initializer;
     data.clientID.cstring = (char*) "client01";
     int len = MQTTSNSerialize_connect(buf, buflen, &data);
     return desirialize(buf, len);
-- 
2.43.0


From 731ec53b8f1609c78707850af6d3098fdbbc354d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:13 +0000
Subject: [PATCH 024/138] fix: leave room for the encapsulation header of a
 packet of the maximum size

---
 MQTTSNGateway/src/MQTTSNGWEncapsulatedPacket.cpp | 4 ++--
 MQTTSNGateway/src/MQTTSNGWEncapsulatedPacket.h   | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWEncapsulatedPacket.cpp b/MQTTSNGateway/src/MQTTSNGWEncapsulatedPacket.cpp
index 24c2afe..1f041d4 100644
--- a/MQTTSNGateway/src/MQTTSNGWEncapsulatedPacket.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWEncapsulatedPacket.cpp
@@ -94,7 +94,7 @@ MQTTSNGWEncapsulatedPacket::~MQTTSNGWEncapsulatedPacket()
 
 int MQTTSNGWEncapsulatedPacket::unicast(SensorNetwork* network, SensorNetAddress* sendTo)
 {
-    uint8_t buf[MQTTSNGW_MAX_PACKET_SIZE];
+    uint8_t buf[MQTTSNGW_MAX_PACKET_SIZE + MAX_ENCAPSULATION_HEADER];
     int len = serialize(buf);
     return network->unicast(buf, len, sendTo);
 }
@@ -160,7 +160,7 @@ char* MQTTSNGWEncapsulatedPacket::print(char* pbuf)
     char* ptr = pbuf;
     char** pptr = &pbuf;
 
-    uint8_t buf[MQTTSNGW_MAX_PACKET_SIZE];
+    uint8_t buf[MQTTSNGW_MAX_PACKET_SIZE + MAX_ENCAPSULATION_HEADER];
     int len = serialize(buf);
     int size = len > SIZE_OF_LOG_PACKET ? SIZE_OF_LOG_PACKET : len;
 
diff --git a/MQTTSNGateway/src/MQTTSNGWEncapsulatedPacket.h b/MQTTSNGateway/src/MQTTSNGWEncapsulatedPacket.h
index 080b9ab..2acc097 100644
--- a/MQTTSNGateway/src/MQTTSNGWEncapsulatedPacket.h
+++ b/MQTTSNGateway/src/MQTTSNGWEncapsulatedPacket.h
@@ -20,6 +20,8 @@
 namespace MQTTSNGW
 {
 
+#define MAX_ENCAPSULATION_HEADER  (255)  // Length, MsgType, Ctrl and Wireless Node Id
+
 class WirelessNodeId
 {
     friend class MQTTSNGWEncapsulatedPacket;
-- 
2.43.0


From e2ee3a27e790dec93b09e74b3bbbd8cd1ff8f214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:13 +0000
Subject: [PATCH 025/138] fix: do not unpack an encapsulated packet whose
 header is not inside the datagram

---
 MQTTSNGateway/src/MQTTSNGWEncapsulatedPacket.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/MQTTSNGateway/src/MQTTSNGWEncapsulatedPacket.cpp b/MQTTSNGateway/src/MQTTSNGWEncapsulatedPacket.cpp
index 1f041d4..1e09584 100644
--- a/MQTTSNGateway/src/MQTTSNGWEncapsulatedPacket.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWEncapsulatedPacket.cpp
@@ -122,6 +122,11 @@ int MQTTSNGWEncapsulatedPacket::desirialize(unsigned char* buf, unsigned short l
         _mqttsn = nullptr;
     }
 
+    if (len < 3 || buf[0] < 3 || buf[0] > len)
+    {
+        return 0;
+    }
+
     _ctrl = buf[2];
     _id.setId(buf + 3, buf[0] - 3);
 
-- 
2.43.0


From c537b1d5a40cdbd44782e8238fbb740942e9591b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:42 +0000
Subject: [PATCH 026/138] fix: the destructor of MessageIdTable does not read
 the elements it has deleted

---
 MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp b/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp
index 8db2cb1..40e567a 100644
--- a/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp
@@ -35,10 +35,10 @@ MessageIdTable::~MessageIdTable()
         MessageIdElement* p = _tail;
         while (p)
         {
-            MessageIdElement* pPrev = p;
+            MessageIdElement* pPrev = p->_prev;
             delete p;
             _cnt--;
-            p = pPrev->_prev;
+            p = pPrev;
         }
         _head = _tail = nullptr;
     }
-- 
2.43.0


From 330e3fda41cdeb18c959f60b36a4136097bf67df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:42 +0000
Subject: [PATCH 027/138] fix: MessageIdTable gives a message one id which no
 other message in flight has

---
 MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp | 43 ++++++++------------
 1 file changed, 17 insertions(+), 26 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp b/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp
index 40e567a..ad9a1b2 100644
--- a/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp
@@ -47,41 +47,30 @@ MessageIdTable::~MessageIdTable()
 
 MessageIdElement* MessageIdTable::add(Aggregater* aggregater, Client* client, uint16_t clientMsgId)
 {
-    if (_cnt > _maxSize)
-    {
-        return nullptr;
-    }
-
-    MessageIdElement* elm = new MessageIdElement(0, client, clientMsgId);
-    if (elm == nullptr)
-    {
-        return nullptr;
-    }
     _mutex.lock();
-    if (_head == nullptr)
-    {
-        elm->_msgId = aggregater->msgId();
-        _head = elm;
-        _tail = elm;
-        _cnt++;
-    }
-    else
+    MessageIdElement* elm = find(client, clientMsgId);
+    if (elm == nullptr && _cnt < _maxSize)
     {
-        MessageIdElement* p = find(client, clientMsgId);
-        if (p == nullptr)
+        elm = new MessageIdElement(0, client, clientMsgId);
+
+        /* the id must not belong to another message which is still in flight */
+        do
         {
             elm->_msgId = aggregater->msgId();
-            p = _tail;
+        } while (find(elm->_msgId) != nullptr);
+
+        if (_head == nullptr)
+        {
+            _head = elm;
             _tail = elm;
-            elm->_prev = p;
-            p->_next = elm;
-            _cnt++;
         }
         else
         {
-            delete elm;
-            elm = nullptr;
+            elm->_prev = _tail;
+            _tail->_next = elm;
+            _tail = elm;
         }
+        _cnt++;
     }
     _mutex.unlock();
     return elm;
@@ -181,11 +170,13 @@ void MessageIdTable::clear(MessageIdElement* elm)
 uint16_t MessageIdTable::getMsgId(Client* client, uint16_t clientMsgId)
 {
     uint16_t msgId = 0;
+    _mutex.lock();
     MessageIdElement* p = find(client, clientMsgId);
     if (p != nullptr)
     {
         msgId = p->_msgId;
     }
+    _mutex.unlock();
     return msgId;
 }
 
-- 
2.43.0


From 7cf3f020abdb8111c9b75a9c314a2afbba1768d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:42 +0000
Subject: [PATCH 028/138] fix: AggregateTopicElement does not read the elements
 it has deleted and frees its topic

---
 MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp b/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp
index e5703d6..125edcd 100644
--- a/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp
@@ -66,13 +66,18 @@ AggregateTopicElement::~AggregateTopicElement(void)
         ClientTopicElement* p = _tail;
         while (p)
         {
-            ClientTopicElement* pPrev = p;
+            ClientTopicElement* pPrev = p->_prev;
             delete p;
-            p = pPrev->_prev;
+            p = pPrev;
         }
         _head = _tail = nullptr;
     }
     _mutex.unlock();
+
+    if (_topic)
+    {
+        delete _topic;
+    }
 }
 
 ClientTopicElement* AggregateTopicElement::add(Client* client)
-- 
2.43.0


From 21d0b269278e3abcd1e3c09462f913e9307a52ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:42 +0000
Subject: [PATCH 029/138] fix: unlink an element in the middle of the aggregate
 topic lists in both directions

---
 MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp b/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp
index 125edcd..9ba1996 100644
--- a/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp
@@ -161,6 +161,7 @@ void AggregateTopicElement::eraseClient(Client* client)
         else if (p->_next != nullptr)  // middle
         {
             p->_prev->_next = p->_next;
+            p->_next->_prev = p->_prev;
         }
         else    // tail
         {
@@ -256,6 +257,7 @@ void AggregateTopicTable::erase(AggregateTopicElement* elmTopic)
         else if (elmTopic->_next != nullptr)  // middle
         {
             elmTopic->_prev->_next = elmTopic->_next;
+            elmTopic->_next->_prev = elmTopic->_prev;
         }
         else    // tail
         {
-- 
2.43.0


From 99612c2a269041bb1c13e20af6ca209640a7f8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:42 +0000
Subject: [PATCH 030/138] fix: aggregated topics are kept by filter and every
 matching subscriber gets the message

---
 MQTTSNGateway/src/MQTTGWPublishHandler.cpp    | 46 ++++++++++++-------
 .../src/MQTTSNGWAggregateTopicTable.cpp       | 34 +++++++++++---
 .../src/MQTTSNGWAggregateTopicTable.h         |  2 +
 MQTTSNGateway/src/MQTTSNGWAggregater.cpp      | 10 ++++
 MQTTSNGateway/src/MQTTSNGWAggregater.h        |  2 +
 5 files changed, 71 insertions(+), 23 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
index 20381f1..ecf1d5f 100644
--- a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
@@ -294,27 +294,41 @@ void MQTTGWPublishHandler::handleAggregatePublish(Client* client, MQTTGWPacket*
     Topic topic = Topic(topicName, MQTTSN_TOPIC_TYPE_NORMAL);
 
     // ToDo: need to refactor
-    ClientTopicElement* elm = _gateway->getAdapterManager()->getAggregater()->getClientElement(&topic);
+    Aggregater* aggregater = _gateway->getAdapterManager()->getAggregater();
 
-    while (elm != nullptr)
+    for (AggregateTopicElement* elmTopic = aggregater->findTopic(&topic); elmTopic != nullptr;
+            elmTopic = aggregater->findNextTopic(elmTopic, &topic))
     {
-        Client* devClient = elm->getClient();
-        MQTTGWPacket* msg = new MQTTGWPacket();
-        *msg = *packet;
-
-        if (msg->getType() == 0)
+        for (ClientTopicElement* elm = elmTopic->getFirstClientTopicElement(); elm != nullptr; elm = elm->getNextClientElement())
         {
-            WRITELOG("%s MQTTGWPublishHandler::handleAggregatePublish can't allocate memories for Packet.%s\n",
-            ERRMSG_HEADER, ERRMSG_FOOTER);
-            delete msg;
-            break;
-        }
+            Client* devClient = elm->getClient();
+
+            /* a client whose filters overlap gets the message once */
+            AggregateTopicElement* elmPrev = aggregater->findTopic(&topic);
+            while (elmPrev != elmTopic && elmPrev->find(devClient) == nullptr)
+            {
+                elmPrev = aggregater->findNextTopic(elmPrev, &topic);
+            }
+            if (elmPrev != elmTopic)
+            {
+                continue;
+            }
 
-        Event* ev = new Event();
-        ev->setBrokerRecvEvent(devClient, msg);
-        _gateway->getPacketEventQue()->post(ev);
+            MQTTGWPacket* msg = new MQTTGWPacket();
+            *msg = *packet;
 
-        elm = elm->getNextClientElement();
+            if (msg->getType() == 0)
+            {
+                WRITELOG("%s MQTTGWPublishHandler::handleAggregatePublish can't allocate memories for Packet.%s\n",
+                ERRMSG_HEADER, ERRMSG_FOOTER);
+                delete msg;
+                return;
+            }
+
+            Event* ev = new Event();
+            ev->setBrokerRecvEvent(devClient, msg);
+            _gateway->getPacketEventQue()->post(ev);
+        }
     }
 }
 
diff --git a/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp b/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp
index 9ba1996..8e79d73 100644
--- a/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp
@@ -191,7 +191,7 @@ AggregateTopicElement* AggregateTopicTable::add(Topic* topic, Client* client)
 {
     AggregateTopicElement* elm = nullptr;
     _mutex.lock();
-    elm = getAggregateTopicElement(topic);
+    elm = find(topic);
     if (elm != nullptr)
     {
         if (elm->find(client) == nullptr)
@@ -224,15 +224,15 @@ void AggregateTopicTable::erase(Topic* topic, Client* client)
     AggregateTopicElement* elm = nullptr;
 
     _mutex.lock();
-    elm = getAggregateTopicElement(topic);
+    elm = find(topic);
 
     if (elm != nullptr)
     {
         elm->eraseClient(client);
-    }
-    if (elm->_head == nullptr)
-    {
-        erase(elm);
+        if (elm->_head == nullptr)
+        {
+            erase(elm);
+        }
     }
     _mutex.unlock();
     return;
@@ -268,10 +268,30 @@ void AggregateTopicTable::erase(AggregateTopicElement* elmTopic)
     }
 }
 
-AggregateTopicElement* AggregateTopicTable::getAggregateTopicElement(Topic* topic)
+AggregateTopicElement* AggregateTopicTable::find(Topic* topic)
 {
     AggregateTopicElement* elm = _head;
 
+    while (elm != nullptr)
+    {
+        if (*elm->_topic->_topicName == *topic->_topicName)
+        {
+            break;
+        }
+        elm = elm->_next;
+    }
+    return elm;
+}
+
+AggregateTopicElement* AggregateTopicTable::getAggregateTopicElement(Topic* topic)
+{
+    return getNextAggregateTopicElement(nullptr, topic);
+}
+
+AggregateTopicElement* AggregateTopicTable::getNextAggregateTopicElement(AggregateTopicElement* elmTopic, Topic* topic)
+{
+    AggregateTopicElement* elm = elmTopic == nullptr ? _head : elmTopic->_next;
+
     while (elm != nullptr)
     {
         if (elm->_topic->isMatch(topic->_topicName))
diff --git a/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.h b/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.h
index 6293c0d..6766ba6 100644
--- a/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.h
+++ b/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.h
@@ -40,6 +40,8 @@ public:
 
     AggregateTopicElement* add(Topic* topic, Client* client);
     AggregateTopicElement* getAggregateTopicElement(Topic* topic);
+    AggregateTopicElement* getNextAggregateTopicElement(AggregateTopicElement* elmTopic, Topic* topic);
+    AggregateTopicElement* find(Topic* topic);
     ClientTopicElement* getClientElement(Topic* topic);
     void erase(Topic* topic, Client* client);
     void clear(void);
diff --git a/MQTTSNGateway/src/MQTTSNGWAggregater.cpp b/MQTTSNGateway/src/MQTTSNGWAggregater.cpp
index 17da79f..f3c1b10 100644
--- a/MQTTSNGateway/src/MQTTSNGWAggregater.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWAggregater.cpp
@@ -99,6 +99,16 @@ AggregateTopicElement* Aggregater::findTopic(Topic* topic)
     return _topicTable.getAggregateTopicElement(topic);
 }
 
+AggregateTopicElement* Aggregater::findNextTopic(AggregateTopicElement* elm, Topic* topic)
+{
+    return _topicTable.getNextAggregateTopicElement(elm, topic);
+}
+
+bool Aggregater::isSubscribed(Topic* topic)
+{
+    return _topicTable.find(topic) != nullptr;
+}
+
 ClientTopicElement* Aggregater::getClientElement(Topic* topic)
 {
     AggregateTopicElement* elm = findTopic(topic);
diff --git a/MQTTSNGateway/src/MQTTSNGWAggregater.h b/MQTTSNGateway/src/MQTTSNGWAggregater.h
index 490b71f..b260f10 100644
--- a/MQTTSNGateway/src/MQTTSNGWAggregater.h
+++ b/MQTTSNGateway/src/MQTTSNGWAggregater.h
@@ -54,6 +54,8 @@ public:
     Client* getClient(ClientTopicElement* clientElement);
 
     AggregateTopicElement* findTopic(Topic* topic);
+    AggregateTopicElement* findNextTopic(AggregateTopicElement* elm, Topic* topic);
+    bool isSubscribed(Topic* topic);
     AggregateTopicElement* addAggregateTopic(Topic* topic, Client* client);
 
     void removeAggregateTopic(Topic* topic, Client* client);
-- 
2.43.0


From 8735128fd5415ad886f060fcd766b70deffe338e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:38 +0000
Subject: [PATCH 031/138] fix: the handlers of MQTT packets ignore a malformed
 packet from the broker

---
 MQTTSNGateway/src/MQTTGWConnectionHandler.cpp |  5 +++-
 MQTTSNGateway/src/MQTTGWPublishHandler.cpp    | 27 ++++++++++++++-----
 MQTTSNGateway/src/MQTTGWSubscribeHandler.cpp  | 10 +++++--
 3 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTGWConnectionHandler.cpp b/MQTTSNGateway/src/MQTTGWConnectionHandler.cpp
index 621b950..96c8063 100644
--- a/MQTTSNGateway/src/MQTTGWConnectionHandler.cpp
+++ b/MQTTSNGateway/src/MQTTGWConnectionHandler.cpp
@@ -34,7 +34,10 @@ void MQTTGWConnectionHandler::handleConnack(Client* client, MQTTGWPacket* packet
 {
     uint8_t rc = MQTT_SERVER_UNAVAILABLE;
     Connack resp;
-    packet->getCONNACK(&resp);
+    if (packet->getCONNACK(&resp) == 0)
+    {
+        return;
+    }
 
     /* convert MQTT ReturnCode to MQTT-SN one */
     if (resp.rc == MQTT_CONNECTION_ACCEPTED)
diff --git a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
index ecf1d5f..59681a6 100644
--- a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
@@ -48,7 +48,10 @@ void MQTTGWPublishHandler::handlePublish(Client* client, MQTTGWPacket* packet)
     if (client->isSleep())
     {
         Publish pub;
-        packet->getPUBLISH(&pub);
+        if (packet->getPUBLISH(&pub) == 0)
+        {
+            return;
+        }
 
         WRITELOG(FORMAT_Y_G_G, currentDateTime(), packet->getName(),
         RIGHTARROW, client->getClientId(), "is sleeping. a message was saved.");
@@ -76,7 +79,10 @@ void MQTTGWPublishHandler::handlePublish(Client* client, MQTTGWPacket* packet)
     }
 
     Publish pub;
-    packet->getPUBLISH(&pub);
+    if (packet->getPUBLISH(&pub) == 0)
+    {
+        return;
+    }
 
     MQTTSNPacket* snPacket = new MQTTSNPacket();
 
@@ -199,7 +205,10 @@ void MQTTGWPublishHandler::replyACK(Client* client, Publish* pub, int type)
 void MQTTGWPublishHandler::handlePuback(Client* client, MQTTGWPacket* packet)
 {
     Ack ack;
-    packet->getAck(&ack);
+    if (packet->getAck(&ack) == 0)
+    {
+        return;
+    }
     TopicIdMapElement* topicId = client->getWaitedPubTopicId((uint16_t) ack.msgId);
     if (topicId)
     {
@@ -219,7 +228,10 @@ void MQTTGWPublishHandler::handlePuback(Client* client, MQTTGWPacket* packet)
 void MQTTGWPublishHandler::handleAck(Client* client, MQTTGWPacket* packet, int type)
 {
     Ack ack;
-    packet->getAck(&ack);
+    if (packet->getAck(&ack) == 0)
+    {
+        return;
+    }
 
     if (client->isActive() || client->isAwake())
     {
@@ -281,14 +293,17 @@ void MQTTGWPublishHandler::handleAggregateAck(Client* client, MQTTGWPacket* pack
 void MQTTGWPublishHandler::handleAggregatePubrel(Client* client, MQTTGWPacket* packet)
 {
     Publish pub;
-    packet->getPUBLISH(&pub);
+    pub.msgId = packet->getMsgId();
     replyACK(client, &pub, PUBCOMP);
 }
 
 void MQTTGWPublishHandler::handleAggregatePublish(Client* client, MQTTGWPacket* packet)
 {
     Publish pub;
-    packet->getPUBLISH(&pub);
+    if (packet->getPUBLISH(&pub) == 0)
+    {
+        return;
+    }
 
     string* topicName = new string(pub.topic, pub.topiclen); // topic deletes topicName when the topic is deleted
     Topic topic = Topic(topicName, MQTTSN_TOPIC_TYPE_NORMAL);
diff --git a/MQTTSNGateway/src/MQTTGWSubscribeHandler.cpp b/MQTTSNGateway/src/MQTTGWSubscribeHandler.cpp
index 9569442..9918f90 100644
--- a/MQTTSNGateway/src/MQTTGWSubscribeHandler.cpp
+++ b/MQTTSNGateway/src/MQTTGWSubscribeHandler.cpp
@@ -37,7 +37,10 @@ void MQTTGWSubscribeHandler::handleSuback(Client* client, MQTTGWPacket* packet)
     uint8_t returnCode;
     int qos = 0;
 
-    packet->getSUBACK(&msgId, &rc);
+    if (packet->getSUBACK(&msgId, &rc) == 0)
+    {
+        return;
+    }
     TopicIdMapElement* topicId = client->getWaitedSubTopicId(msgId);
 
     if (topicId)
@@ -64,7 +67,10 @@ void MQTTGWSubscribeHandler::handleSuback(Client* client, MQTTGWPacket* packet)
 void MQTTGWSubscribeHandler::handleUnsuback(Client* client, MQTTGWPacket* packet)
 {
     Ack ack;
-    packet->getAck(&ack);
+    if (packet->getAck(&ack) == 0)
+    {
+        return;
+    }
     MQTTSNPacket* snPacket = new MQTTSNPacket();
     snPacket->setUNSUBACK(ack.msgId);
     Event* evt = new Event();
-- 
2.43.0


From 292de1c91739febd41b6336efa119b272c2e7cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:38 +0000
Subject: [PATCH 032/138] fix: a topic name of less than two bytes is not a
 short topic name

---
 MQTTSNGateway/src/MQTTGWPublishHandler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
index 59681a6..b5528d8 100644
--- a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
@@ -90,7 +90,7 @@ void MQTTGWPublishHandler::handlePublish(Client* client, MQTTGWPacket* packet)
     MQTTSN_topicid topicId;
     uint16_t id = 0;
 
-    if (pub.topiclen <= 2)
+    if (pub.topiclen == 2)
     {
         topicId.type = MQTTSN_TOPIC_TYPE_SHORT;
         *(topicId.data.short_name) = *pub.topic;
-- 
2.43.0


From 77fc7535828fa84f8682ba0404020b4e0f392343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:38 +0000
Subject: [PATCH 033/138] fix: discard a PUBLISH from the broker which does not
 fit into a MQTT-SN packet

---
 MQTTSNGateway/src/MQTTGWPublishHandler.cpp | 26 +++++++++++++++++-----
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
index b5528d8..fb688a6 100644
--- a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
@@ -161,7 +161,18 @@ void MQTTGWPublishHandler::handlePublish(Client* client, MQTTGWPacket* packet)
                 topicName.lenstring.data = topicId.data.long_.name;
 
                 uint16_t regackMsgId = client->getNextSnMsgId();
-                regPacket->setREGISTER(id, regackMsgId, &topicName);
+                topicId.data.id = id;
+                if (regPacket->setREGISTER(id, regackMsgId, &topicName) == 0
+                        || snPacket->setPUBLISH((uint8_t) pub.header.bits.dup, (int) pub.header.bits.qos,
+                                (uint8_t) pub.header.bits.retain, (uint16_t) pub.msgId, topicId, (uint8_t*) pub.payload,
+                                pub.payloadlen) == 0)
+                {
+                    WRITELOG("%sMQTTGWPublishHandler PUBLISH message is too long. It is discarded.%s\n",
+                    ERRMSG_HEADER, ERRMSG_FOOTER);
+                    delete regPacket;
+                    delete snPacket;
+                    return;
+                }
 
                 /* send REGISTER */
                 Event* evrg = new Event();
@@ -169,9 +180,6 @@ void MQTTGWPublishHandler::handlePublish(Client* client, MQTTGWPacket* packet)
                 _gateway->getClientSendQue()->post(evrg);
 
                 /* send PUBLISH */
-                topicId.data.id = id;
-                snPacket->setPUBLISH((uint8_t) pub.header.bits.dup, (int) pub.header.bits.qos, (uint8_t) pub.header.bits.retain,
-                        (uint16_t) pub.msgId, topicId, (uint8_t*) pub.payload, pub.payloadlen);
                 client->getWaitREGACKPacketList()->setPacket(snPacket, regackMsgId);
                 return;
             }
@@ -185,8 +193,14 @@ void MQTTGWPublishHandler::handlePublish(Client* client, MQTTGWPacket* packet)
         }
     }
 
-    snPacket->setPUBLISH((uint8_t) pub.header.bits.dup, (int) pub.header.bits.qos, (uint8_t) pub.header.bits.retain,
-            (uint16_t) pub.msgId, topicId, (uint8_t*) pub.payload, pub.payloadlen);
+    if (snPacket->setPUBLISH((uint8_t) pub.header.bits.dup, (int) pub.header.bits.qos, (uint8_t) pub.header.bits.retain,
+            (uint16_t) pub.msgId, topicId, (uint8_t*) pub.payload, pub.payloadlen) == 0)
+    {
+        WRITELOG("%sMQTTGWPublishHandler PUBLISH message is too long. It is discarded.%s\n",
+        ERRMSG_HEADER, ERRMSG_FOOTER);
+        delete snPacket;
+        return;
+    }
     Event* ev1 = new Event();
     ev1->setClientSendEvent(client, snPacket);
     _gateway->getClientSendQue()->post(ev1);
-- 
2.43.0


From 51cb64c5556f3a371e34330917122c6459150b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:38 +0000
Subject: [PATCH 034/138] fix: a QoS 0 PUBLISH with an unknown topic id is not
 sent to the broker with an empty topic

---
 MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
index 3824173..232ff86 100644
--- a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
@@ -90,7 +90,7 @@ MQTTGWPacket* MQTTSNPublishHandler::handlePublish(Client* client, MQTTSNPacket*
             }
         }
 
-        if (!topic && qos == 3)
+        if (!topic && (qos == 0 || qos == 3))
         {
             WRITELOG("%s Invalid TopicId.%s %s\n", ERRMSG_HEADER, client->getClientId(), ERRMSG_FOOTER);
             return nullptr;
-- 
2.43.0


From 14fff02feabb134f2bacf0aec1676c806e9d7f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:38 +0000
Subject: [PATCH 035/138] fix: discard a QoS 1 or 2 PUBLISH without message id,
 which MQTT does not allow

---
 MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
index 232ff86..b29953b 100644
--- a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
@@ -69,6 +69,12 @@ MQTTGWPacket* MQTTSNPublishHandler::handlePublish(Client* client, MQTTSNPacket*
     pub.header.bits.retain = retained;
     tid = topicid.data.id;
 
+    if ((qos == 1 || qos == 2) && msgId == 0)
+    {
+        WRITELOG("%s Invalid MsgId.%s %s\n", ERRMSG_HEADER, client->getClientId(), ERRMSG_FOOTER);
+        return nullptr;
+    }
+
     Topic* topic = nullptr;
 
     if (topicid.type == MQTTSN_TOPIC_TYPE_SHORT)
-- 
2.43.0


From 8d5af1b0cf480ec6a251e852c6c1e0a0f4503d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:38 +0000
Subject: [PATCH 036/138] fix: PUBACK returns a short topic name in its order,
 a QoS -1 PUBLISH with a topic name is published under it

---
 MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
index b29953b..90045a5 100644
--- a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
@@ -83,6 +83,18 @@ MQTTGWPacket* MQTTSNPublishHandler::handlePublish(Client* client, MQTTSNPacket*
         shortTopic[1] = topicid.data.short_name[1];
         pub.topic = shortTopic;
         pub.topiclen = 2;
+        tid = (uint8_t) shortTopic[0] << 8 | (uint8_t) shortTopic[1];
+    }
+    else if (topicid.type == MQTTSN_TOPIC_TYPE_NORMAL && qos == 3)
+    {
+        /* PUBLISH QoS-1 with a topic name */
+        if (topicid.data.long_.len == 0)
+        {
+            WRITELOG("%s Invalid Topic.%s %s\n", ERRMSG_HEADER, client->getClientId(), ERRMSG_FOOTER);
+            return nullptr;
+        }
+        pub.topic = topicid.data.long_.name;
+        pub.topiclen = topicid.data.long_.len;
     }
     else
     {
-- 
2.43.0


From 8d7262f51e888352f603e023f9db975d24647b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:38 +0000
Subject: [PATCH 037/138] fix: do not fill the table of the topics waiting for
 PUBACK with QoS 2 messages

---
 MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
index 90045a5..73a30f9 100644
--- a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
@@ -139,7 +139,7 @@ MQTTGWPacket* MQTTSNPublishHandler::handlePublish(Client* client, MQTTSNPacket*
         }
     }
     /* Save a msgId & a TopicId pare for PUBACK */
-    if (msgId && qos > 0 && qos < 3)
+    if (msgId && qos == 1)
     {
         client->setWaitedPubTopicId(msgId, tid, &topicid);
     }
-- 
2.43.0


From 979b8a2f9b7294469987d40d0042b26d06cad9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:38 +0000
Subject: [PATCH 038/138] fix: reject a REGISTER when the client has no room
 for another topic

---
 MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
index 73a30f9..db472e2 100644
--- a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
@@ -231,10 +231,19 @@ void MQTTSNPublishHandler::handleRegister(Client* client, MQTTSNPacket* packet)
         topicid.data.long_.len = topicName.lenstring.len;
         topicid.data.long_.name = topicName.lenstring.data;
 
-        id = client->getTopics()->add(&topicid)->getTopicId();
+        Topic* topic = client->getTopics()->add(&topicid);
 
         MQTTSNPacket* regAck = new MQTTSNPacket();
-        regAck->setREGACK(id, msgId, MQTTSN_RC_ACCEPTED);
+        if (topic == nullptr)
+        {
+            WRITELOG("%s Client(%s) can't add the Topic.%s\n",
+            ERRMSG_HEADER, client->getClientId(), ERRMSG_FOOTER);
+            regAck->setREGACK(0, msgId, MQTTSN_RC_REJECTED_CONGESTED);
+        }
+        else
+        {
+            regAck->setREGACK(topic->getTopicId(), msgId, MQTTSN_RC_ACCEPTED);
+        }
         Event* ev = new Event();
         ev->setClientSendEvent(client, regAck);
         _gateway->getClientSendQue()->post(ev);
-- 
2.43.0


From 39f6b659c104276427528e92353cc408b444d004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:38 +0000
Subject: [PATCH 039/138] fix: the id of a short topic name is built from
 unsigned bytes

---
 MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp b/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
index 797e36b..ddc654a 100644
--- a/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
@@ -108,8 +108,8 @@ MQTTGWPacket* MQTTSNSubscribeHandler::handleSubscribe(Client* client, MQTTSNPack
         topicstr[0] = topicFilter.data.short_name[0];
         topicstr[1] = topicFilter.data.short_name[1];
         topicstr[2] = 0;
-        topicId = topicFilter.data.short_name[0] << 8;
-        topicId |= topicFilter.data.short_name[1];
+        topicId = (uint8_t) topicFilter.data.short_name[0] << 8;
+        topicId |= (uint8_t) topicFilter.data.short_name[1];
         subscribe = new MQTTGWPacket();
         subscribe->setSUBSCRIBE(topicstr, (uint8_t) qos, (uint16_t) msgId);
     }
-- 
2.43.0


From 50cddb2c349a86b4f7848e61f88e7cc97ee002b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:38 +0000
Subject: [PATCH 040/138] fix: SUBSCRIBE and UNSUBSCRIBE with the reserved
 topic type do not use an uninitialised topic

---
 MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp b/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
index ddc654a..e21139c 100644
--- a/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
@@ -94,6 +94,7 @@ MQTTGWPacket* MQTTSNSubscribeHandler::handleSubscribe(Client* client, MQTTSNPack
             {
                 WRITELOG("%s Client(%s) can't add the Topic.%s\n",
                 ERRMSG_HEADER, client->getClientId(), ERRMSG_FOOTER);
+                topicFilter.data.id = 0;
                 goto RespExit;
             }
         }
@@ -102,6 +103,11 @@ MQTTGWPacket* MQTTSNSubscribeHandler::handleSubscribe(Client* client, MQTTSNPack
 
         subscribe->setSUBSCRIBE((char*) topic->getTopicName()->c_str(), (uint8_t) qos, (uint16_t) msgId);
     }
+    else if (topicFilter.type != MQTTSN_TOPIC_TYPE_SHORT)
+    {
+        topicFilter.data.id = 0;
+        goto RespExit;
+    }
     else  //MQTTSN_TOPIC_TYPE_SHORT
     {
         char topicstr[3];
@@ -169,7 +175,7 @@ MQTTGWPacket* MQTTSNSubscribeHandler::handleUnsubscribe(Client* client, MQTTSNPa
         {
             topic = client->getTopics()->getTopicById(&topicFilter);
         }
-        else
+        else if (topicFilter.type == MQTTSN_TOPIC_TYPE_NORMAL)
         {
             topic = client->getTopics()->getTopicByName(&topicFilter);
         }
-- 
2.43.0


From a633b9d5654189f38f83fdd395cbdc8b22b4359b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:59 +0000
Subject: [PATCH 041/138] fix: a client which connects with a will gets as far
 as CONNACK

---
 MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp |  3 +++
 MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp           |  5 ++++-
 MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp        | 10 ++++++++--
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp b/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp
index 8e81351..378c65a 100644
--- a/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp
@@ -102,6 +102,7 @@ void MQTTSNAggregateConnectionHandler::handleConnect(Client* client, MQTTSNPacke
         evwr->setClientSendEvent(client, reqTopic);
 
         /* Send WILLTOPICREQ to the client */
+        client->setWaitWillMsgFlg(true);
         _gateway->getClientSendQue()->post(evwr);
     }
     else
@@ -140,6 +141,8 @@ void MQTTSNAggregateConnectionHandler::handleWillmsg(Client* client, MQTTSNPacke
             return;
         }
         client->setWillMsg(willmsg);
+        client->setWaitWillMsgFlg(false);
+        client->connackSended(MQTTSN_RC_ACCEPTED);
 
         /* Send CONNACK to the client */
         MQTTSNPacket* packet = new MQTTSNPacket();
diff --git a/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp b/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
index f4c019b..fcc016f 100644
--- a/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
@@ -149,7 +149,10 @@ void ClientRecvTask::run()
         {
             log(client, packet, 0);
 
-            if (client->isDisconnect() && packet->getType() != MQTTSN_CONNECT)
+            bool isWill = client->isWaitWillMsg()
+                    && (packet->getType() == MQTTSN_WILLTOPIC || packet->getType() == MQTTSN_WILLMSG);
+
+            if (client->isDisconnect() && packet->getType() != MQTTSN_CONNECT && !isWill)
             {
                 WRITELOG("%s MQTTSNGWClientRecvTask %s is not connecting.%s\n",
                 ERRMSG_HEADER, client->getClientId(), ERRMSG_FOOTER);
diff --git a/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp b/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp
index 69f3b41..c1c4e2a 100644
--- a/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp
@@ -140,6 +140,7 @@ void MQTTSNConnectionHandler::handleConnect(Client* client, MQTTSNPacket* packet
         evwr->setClientSendEvent(client, reqTopic);
 
         /* Send WILLTOPICREQ to the client */
+        client->setWaitWillMsgFlg(true);
         _gateway->getClientSendQue()->post(evwr);
     }
     else
@@ -164,6 +165,12 @@ void MQTTSNConnectionHandler::handleWilltopic(Client* client, MQTTSNPacket* pack
     uint8_t willRetain;
     MQTTSNString willTopic = MQTTSNString_initializer;
 
+    if (!client->isWaitWillMsg())
+    {
+        DEBUGLOG("     MQTTSNConnectionHandler::handleWilltopic  WaitWillMsgFlg is off.\n");
+        return;
+    }
+
     if (packet->getWILLTOPIC(&willQos, &willRetain, &willTopic) == 0)
     {
         return;
@@ -177,7 +184,6 @@ void MQTTSNConnectionHandler::handleWilltopic(Client* client, MQTTSNPacket* pack
     connectData->flags.bits.willRetain = willRetain;
 
     /* Send WILLMSGREQ to the client */
-    client->setWaitWillMsgFlg(true);
     MQTTSNPacket* reqMsg = new MQTTSNPacket();
     reqMsg->setWILLMSGREQ();
     Event* evt = new Event();
@@ -199,7 +205,7 @@ void MQTTSNConnectionHandler::handleWillmsg(Client* client, MQTTSNPacket* packet
     MQTTSNString willmsg = MQTTSNString_initializer;
     Connect* connectData = client->getConnectData();
 
-    if (client->isConnectSendable())
+    if (client->isConnectSendable() && connectData->willTopic != nullptr)
     {
         /* save WillMsg in the client */
         if (packet->getWILLMSG(&willmsg) == 0)
-- 
2.43.0


From 5d0ba290bf4f869bb4016c488f92e9532852bdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:58 +0000
Subject: [PATCH 042/138] fix: a sleeping client may renew its sleep duration

---
 MQTTSNGateway/src/MQTTSNGWClient.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWClient.cpp b/MQTTSNGateway/src/MQTTSNGWClient.cpp
index b209265..3efb233 100644
--- a/MQTTSNGateway/src/MQTTSNGWClient.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClient.cpp
@@ -269,7 +269,16 @@ void Client::updateStatus(MQTTSNPacket* packet)
             _status = Cstat_Active;
             break;
         case MQTTSN_DISCONNECT:
-            disconnected();
+            uint16_t duration;
+            packet->getDISCONNECT(&duration);
+            if (duration)
+            {
+                _status = Cstat_Asleep;
+            }
+            else
+            {
+                disconnected();
+            }
             break;
         case MQTTSN_PINGREQ:
             _status = Cstat_Awake;
-- 
2.43.0


From 103bd7021e08fe4c35bfeb1bee912d753f1a55f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:06 +0000
Subject: [PATCH 043/138] fix: a sleeping client with stored messages gets its
 PINGRESP after them

---
 MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp b/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp
index c1c4e2a..4857a48 100644
--- a/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp
@@ -288,6 +288,15 @@ void MQTTSNConnectionHandler::handlePingreq(Client* client, MQTTSNPacket* packet
     if ((client->isSleep() || client->isAwake()) && client->getClientSleepPacket())
     {
         sendStoredPublish(client);
+
+        /* handle this PINGREQ again after the stored PUBLISHes */
+        Event* evt = new Event();
+        evt->setClientRecvEvent(client, new MQTTSNPacket(*packet));
+        _gateway->getPacketEventQue()->post(evt);
+    }
+    else if (client->isAwake() && client->getWaitREGACKPacketList()->getCount() > 0 && !client->isHoldPingReqest())
+    {
+        /* a stored PUBLISH waits for REGACK. PINGREQ is sent after that */
         client->holdPingRequest();
     }
     else
-- 
2.43.0


From f1c233889508e2713816a824865b3415eb372dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:06 +0000
Subject: [PATCH 044/138] fix: WaitREGACKPacketList::erase frees the element

---
 MQTTSNGateway/src/MQTTSNGWClient.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWClient.cpp b/MQTTSNGateway/src/MQTTSNGWClient.cpp
index 3efb233..eec381f 100644
--- a/MQTTSNGateway/src/MQTTSNGWClient.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClient.cpp
@@ -690,8 +690,9 @@ void WaitREGACKPacketList::erase(uint16_t REGACKMsgId)
                 p->_next->_prev = p->_prev;
             }
             _cnt--;
+            p->_packet = nullptr; // The packet is deleted after sending to Client.
+            delete p;
             break;
-            // Do not delete element. Element is deleted after sending to Client.
         }
         p = p->_next;
     }
-- 
2.43.0


From 613c9266450b0171758b4269faa17deea5169e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:56 +0000
Subject: [PATCH 045/138] fix: the log of a client id longer than
 MAX_CLIENTID_LENGTH does not overflow the stack

---
 MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp b/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
index fcc016f..5ce21f8 100644
--- a/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
@@ -264,17 +264,19 @@ void ClientRecvTask::log(Client* client, MQTTSNPacket* packet, MQTTSNString* id)
 
     if (id)
     {
-        if (id->cstring)
+        const char* str = id->cstring ? id->cstring : id->lenstring.data;
+        int len = MQTTSNstrlen(*id);
+
+        if (len > MAX_CLIENTID_LENGTH)
         {
-            strncpy(cstr, id->cstring, strlen(id->cstring));
-            clientId = cstr;
+            len = MAX_CLIENTID_LENGTH;
         }
-        else
+        memset((void*) cstr, 0, sizeof(cstr));
+        if (str)
         {
-            memset((void*) cstr, 0, id->lenstring.len + 1);
-            strncpy(cstr, id->lenstring.data, id->lenstring.len);
-            clientId = cstr;
+            strncpy(cstr, str, len);
         }
+        clientId = cstr;
     }
     else if (client)
     {
-- 
2.43.0


From f6a7060535e5b65e81292fe1f125e8fa223f626a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:56 +0000
Subject: [PATCH 046/138] fix: discard an encapsulated message without a
 MQTT-SN packet in it

---
 MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp b/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
index 5ce21f8..4a4bfff 100644
--- a/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
@@ -110,10 +110,19 @@ void ClientRecvTask::run()
 
                 /* get the packet from the encapsulation message */
                 MQTTSNGWEncapsulatedPacket encap;
-                encap.desirialize(packet->getPacketData(), packet->getPacketLength());
+                int headerLen = encap.desirialize(packet->getPacketData(), packet->getPacketLength());
+                delete packet;
+                packet = encap.getMQTTSNPacket();
+
+                if (headerLen == 0 || packet->getPacketLength() < 2)
+                {
+                    WRITELOG("%s MQTTSNGWClientRecvTask  Forwarder(%s) sent an invalid encapsulated message.%s\n",
+                    ERRMSG_HEADER, fwd->getName(), ERRMSG_FOOTER);
+                    delete packet;
+                    continue;
+                }
                 nodeId.setId(encap.getWirelessNodeId());
                 client = fwd->getClient(&nodeId);
-                packet = encap.getMQTTSNPacket();
             }
         }
         else
-- 
2.43.0


From a0231f346b6556fdf093338882a8aed91fb3924d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:56 +0000
Subject: [PATCH 047/138] fix: a forwarded client for which there is no room is
 rejected

---
 MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp b/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
index 4a4bfff..74fc453 100644
--- a/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
@@ -208,8 +208,11 @@ void ClientRecvTask::run()
                         /* create a new client */
                         client = clientList->createClient(0, &data.clientID, clientType);
                     }
-                    /* Add to a forwarded client list of forwarder. */
-                    fwd->addClient(client, &nodeId);
+                    if (client != nullptr)
+                    {
+                        /* Add to a forwarded client list of forwarder. */
+                        fwd->addClient(client, &nodeId);
+                    }
                 }
                 else
                 {
-- 
2.43.0


From 8190df1e890ee431e147d762d568db3b33005b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:56 +0000
Subject: [PATCH 048/138] fix: Forwarder::eraseClient keeps the clients in
 front of the erased one

---
 MQTTSNGateway/src/MQTTSNGWForwarder.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MQTTSNGateway/src/MQTTSNGWForwarder.cpp b/MQTTSNGateway/src/MQTTSNGWForwarder.cpp
index a157747..98a82bb 100644
--- a/MQTTSNGateway/src/MQTTSNGWForwarder.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWForwarder.cpp
@@ -234,6 +234,7 @@ void Forwarder::eraseClient(Client* client)
         }
         else
         {
+            prev = p;
             p = p->_next;
         }
     }
-- 
2.43.0


From a00905e2d35d1f243871a5c5c6b2cc9b3e3cf884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:56 +0000
Subject: [PATCH 049/138] fix: a client which moves away from a forwarder gets
 its packets where it is now

---
 MQTTSNGateway/src/MQTTSNGWClient.cpp         | 10 +++++++++-
 MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp |  7 +++++++
 MQTTSNGateway/src/MQTTSNGWForwarder.cpp      |  4 ++++
 3 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWClient.cpp b/MQTTSNGateway/src/MQTTSNGWClient.cpp
index eec381f..2e29b72 100644
--- a/MQTTSNGateway/src/MQTTSNGWClient.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClient.cpp
@@ -204,7 +204,15 @@ void Client::setKeepAlive(MQTTSNPacket* packet)
 void Client::setForwarder(Forwarder* forwarder)
 {
     _forwarder = forwarder;
-    _clientType = Ctype_Forwarded;
+
+    if (forwarder && _clientType == Ctype_Normal)
+    {
+        _clientType = Ctype_Forwarded;
+    }
+    else if (!forwarder && _clientType == Ctype_Forwarded)
+    {
+        _clientType = Ctype_Normal;
+    }
 }
 
 Forwarder* Client::getForwarder(void)
diff --git a/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp b/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
index 74fc453..54d3444 100644
--- a/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
@@ -218,6 +218,13 @@ void ClientRecvTask::run()
                 {
                     if (client)
                     {
+                        if (client->getForwarder() != nullptr)
+                        {
+                            /* the client is not behind the forwarder any more */
+                            client->getForwarder()->eraseClient(client);
+                            client->setForwarder(nullptr);
+                        }
+
                         /* Authentication is not required */
                         if (_gateway->getGWParams()->clientAuthentication == false)
                         {
diff --git a/MQTTSNGateway/src/MQTTSNGWForwarder.cpp b/MQTTSNGateway/src/MQTTSNGWForwarder.cpp
index 98a82bb..58ab882 100644
--- a/MQTTSNGateway/src/MQTTSNGWForwarder.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWForwarder.cpp
@@ -132,6 +132,10 @@ void Forwarder::addClient(Client* client, WirelessNodeId* id)
     ForwarderElement* p = _headClient;
     ForwarderElement* prev = nullptr;
 
+    if (client->getForwarder() && client->getForwarder() != this)
+    {
+        client->getForwarder()->eraseClient(client);
+    }
     client->setForwarder(this);
 
     if (p != nullptr)
-- 
2.43.0


From 0a9014ae797b9b39084dac8e41b21b17a673aabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:56 +0000
Subject: [PATCH 050/138] fix: a client id identifies the client which has it,
 not one of which it is the beginning

---
 MQTTSNGateway/src/MQTTSNGWClientList.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWClientList.cpp b/MQTTSNGateway/src/MQTTSNGWClientList.cpp
index cc5006f..a06cc90 100644
--- a/MQTTSNGateway/src/MQTTSNGWClientList.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClientList.cpp
@@ -310,8 +310,7 @@ Client* ClientList::getClient(int index)
 
 Client* ClientList::getClient(MQTTSNString* clientId)
 {
-    _mutex.lock();
-    Client* client = _firstClient;
+    size_t len = MQTTSNstrlen(*clientId);
     const char* clID = clientId->cstring;
 
     if (clID == nullptr)
@@ -319,9 +318,17 @@ Client* ClientList::getClient(MQTTSNString* clientId)
         clID = clientId->lenstring.data;
     }
 
+    if (len == 0)
+    {
+        return 0;
+    }
+
+    _mutex.lock();
+    Client* client = _firstClient;
+
     while (client != nullptr)
     {
-        if (strncmp((const char*) client->getClientId(), clID, MQTTSNstrlen(*clientId)) == 0)
+        if (strlen(client->getClientId()) == len && memcmp(client->getClientId(), clID, len) == 0)
         {
             _mutex.unlock();
             return client;
-- 
2.43.0


From 53193f78f4cfda36f8e325a1711b0b4cd3354c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:56 +0000
Subject: [PATCH 051/138] fix: ClientAuthentication=YES rejects a client which
 is not registered in the list

---
 MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp b/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
index 54d3444..88ecbbc 100644
--- a/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
@@ -203,7 +203,7 @@ void ClientRecvTask::run()
 
                 if (fwd != nullptr)
                 {
-                    if (client == nullptr)
+                    if (client == nullptr && !clientList->isAuthorized())
                     {
                         /* create a new client */
                         client = clientList->createClient(0, &data.clientID, clientType);
@@ -231,7 +231,7 @@ void ClientRecvTask::run()
                             client->setClientAddress(&senderAddr);
                         }
                     }
-                    else
+                    else if (!clientList->isAuthorized())
                     {
                         /* create a new client */
                         client = clientList->createClient(&senderAddr, &data.clientID, clientType);
-- 
2.43.0


From 1cc1655ea238e98009b5f9b700901a0a64c93cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:56 +0000
Subject: [PATCH 052/138] fix: all predefined topics of a client id belong to
 one client of the type of the gateway

---
 MQTTSNGateway/src/MQTTSNGWClientList.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWClientList.cpp b/MQTTSNGateway/src/MQTTSNGWClientList.cpp
index a06cc90..01965b9 100644
--- a/MQTTSNGateway/src/MQTTSNGWClientList.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClientList.cpp
@@ -431,7 +431,10 @@ Client* ClientList::createPredefinedTopic(MQTTSNString* clientId, string topicNa
             return nullptr;
         }
 
-        client = createClient(NULL, clientId, aggregate);
+        if (client == nullptr)
+        {
+            client = createClient(NULL, clientId, aggregate ? AGGREGATER_TYPE : TRANSPEARENT_TYPE);
+        }
 
         if (client == nullptr)
         {
-- 
2.43.0


From 767ccebf31c137434ba688b7623db84a290fe773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:56 +0000
Subject: [PATCH 053/138] fix: the clients of the adapters come from the pool,
 which holds MaxNumberOfClients

---
 MQTTSNGateway/src/MQTTSNGWAdapter.cpp    | 8 ++++++++
 MQTTSNGateway/src/MQTTSNGWClientList.cpp | 9 +++++----
 MQTTSNGateway/src/MQTTSNGWClientList.h   | 1 +
 MQTTSNGateway/src/MQTTSNGateway.cpp      | 3 +++
 4 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWAdapter.cpp b/MQTTSNGateway/src/MQTTSNGWAdapter.cpp
index 8e0e347..b03137b 100644
--- a/MQTTSNGateway/src/MQTTSNGWAdapter.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWAdapter.cpp
@@ -64,11 +64,19 @@ void Adapter::setup(const char* adpterName, AdapterType adapterType)
     idSecure.cstring = const_cast<char*>(nameSecure.c_str());
 
     Client* client = _gateway->getClientList()->createClient(0, &id, true, false, TRANSPEARENT_TYPE);
+    if (client == nullptr)
+    {
+        throw EXCEPTION("Adapter::setup MaxNumberOfClients is too small for the adapters.", 0);
+    }
     setClient(client, false);
     client->setAdapterType(adapterType);
 
     client = _gateway->getClientList()->createClient(0, &idSecure, true, true,
     TRANSPEARENT_TYPE);
+    if (client == nullptr)
+    {
+        throw EXCEPTION("Adapter::setup MaxNumberOfClients is too small for the adapters.", 0);
+    }
     setClient(client, true);
     client->setAdapterType(adapterType);
 }
diff --git a/MQTTSNGateway/src/MQTTSNGWClientList.cpp b/MQTTSNGateway/src/MQTTSNGWClientList.cpp
index 01965b9..a9d9192 100644
--- a/MQTTSNGateway/src/MQTTSNGWClientList.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClientList.cpp
@@ -56,11 +56,14 @@ ClientList::~ClientList()
     _mutex.unlock();
 }
 
-void ClientList::initialize(bool aggregate)
+void ClientList::allocate(void)
 {
     _maxClients = _gateway->getGWParams()->maxClients;
-    _clientsPool->allocate(_gateway->getGWParams()->maxClients);
+    _clientsPool->allocate(_maxClients);
+}
 
+void ClientList::initialize(bool aggregate)
+{
     if (_gateway->getGWParams()->clientAuthentication)
     {
         int type = TRANSPEARENT_TYPE;
@@ -486,8 +489,6 @@ void ClientsPool::allocate(int maxClients)
 {
     Client* cl = nullptr;
 
-    _firstClient = new Client();
-
     for (int i = 0; i < maxClients; i++)
     {
         if ((cl = new Client()) == nullptr)
diff --git a/MQTTSNGateway/src/MQTTSNGWClientList.h b/MQTTSNGateway/src/MQTTSNGWClientList.h
index 4cb2ca3..42f5028 100644
--- a/MQTTSNGateway/src/MQTTSNGWClientList.h
+++ b/MQTTSNGateway/src/MQTTSNGWClientList.h
@@ -57,6 +57,7 @@ public:
 	ClientList(Gateway* gw);
     ~ClientList();
 
+    void allocate(void);
     void initialize(bool aggregate);
     void setClientList(int type);
     void setPredefinedTopics(bool aggregate);
diff --git a/MQTTSNGateway/src/MQTTSNGateway.cpp b/MQTTSNGateway/src/MQTTSNGateway.cpp
index d672268..8ddde4b 100644
--- a/MQTTSNGateway/src/MQTTSNGateway.cpp
+++ b/MQTTSNGateway/src/MQTTSNGateway.cpp
@@ -303,6 +303,9 @@ void Gateway::initialize(int argc, char** argv)
     /*  Setup max PacketEventQue size  */
     _packetEventQue.setMaxSize(_params.maxInflightMsgs * _params.maxClients);
 
+    /*  Allocate the clients. Adapters need them too. */
+    _clientList->allocate();
+
     /*  Initialize adapters */
     _adapterManager->initialize(_params.gatewayName, _params.aggregatingGw, _params.forwarder, _params.qosMinus1);
 
-- 
2.43.0


From 5ffae13d147c2246065f851139bad46855504d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:56 +0000
Subject: [PATCH 054/138] fix: the responses of the secure connection reach the
 secure proxy of an adapter

---
 MQTTSNGateway/src/MQTTSNGWAdapter.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWAdapter.cpp b/MQTTSNGateway/src/MQTTSNGWAdapter.cpp
index b03137b..ada3d12 100644
--- a/MQTTSNGateway/src/MQTTSNGWAdapter.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWAdapter.cpp
@@ -24,6 +24,8 @@
 #include <string.h>
 using namespace MQTTSNGW;
 
+char* currentDateTime(void);
+
 /*=====================================
  Class Adapter
  =====================================*/
@@ -172,7 +174,7 @@ void Adapter::checkConnection(void)
 void Adapter::send(MQTTSNPacket* packet, Client* client)
 {
     Proxy* proxy = _proxy;
-    if (client->isSecureNetwork() && !_isSecure)
+    if (client->isSecureNetwork())
     {
         if (_isSecure)
         {
@@ -181,7 +183,7 @@ void Adapter::send(MQTTSNPacket* packet, Client* client)
         else
         {
             WRITELOG("%s %s  No Secure connections %s 's packet is discarded.%s\n",
-            ERRMSG_HEADER, client->getClientId(), ERRMSG_FOOTER);
+            currentDateTime(), ERRMSG_HEADER, client->getClientId(), ERRMSG_FOOTER);
             return;
         }
     }
-- 
2.43.0


From fc992ea4e6f806d92750dcb79e219650b3e3041b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:56 +0000
Subject: [PATCH 055/138] fix: the aggregater connects again when it has lost
 the connection to the broker

---
 MQTTSNGateway/src/MQTTSNGWPacketHandleTask.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MQTTSNGateway/src/MQTTSNGWPacketHandleTask.cpp b/MQTTSNGateway/src/MQTTSNGWPacketHandleTask.cpp
index 08d1cfb..e174a05 100644
--- a/MQTTSNGateway/src/MQTTSNGWPacketHandleTask.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPacketHandleTask.cpp
@@ -268,6 +268,9 @@ void PacketHandleTask::aggregatePacketHandler(Client*client, MQTTGWPacket* packe
     case UNSUBACK:
         _mqttSubscribe->handleAggregateUnsuback(client, packet);
         break;
+    case DISCONNECT:
+        client->disconnected(); // Just change Client's status to "Disconnected"
+        break;
     default:
         break;
     }
-- 
2.43.0


From 62ad0a82cae9ddffcf3d8448791eb264af4bbb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:56 +0000
Subject: [PATCH 056/138] fix: a line of the predefined topic list which is no
 predefined topic is skipped

---
 MQTTSNGateway/src/MQTTSNGWClientList.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWClientList.cpp b/MQTTSNGateway/src/MQTTSNGWClientList.cpp
index a9d9192..8c74e74 100644
--- a/MQTTSNGateway/src/MQTTSNGWClientList.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClientList.cpp
@@ -215,11 +215,16 @@ bool ClientList::readPredefinedList(const char* fileName, bool aggregate)
             }
 
             pos0 = data.find_first_of(",");
-            pos1 = data.find(",", pos0 + 1);
+            pos1 = pos0 == string::npos ? pos0 : data.find(",", pos0 + 1);
+            unsigned long topicID = pos1 == string::npos ? 0 : strtoul(data.c_str() + pos1 + 1, nullptr, 10);
+            if (topicID == 0 || topicID > 0xffff)
+            {
+                WRITELOG("Invalid Predefined Topic     %s\n", data.c_str());
+                continue;
+            }
             string id = data.substr(0, pos0);
             clientId.cstring = strdup(id.c_str());
             string topicName = data.substr(pos0 + 1, pos1 - pos0 - 1);
-            uint16_t topicID = stoul(data.substr(pos1 + 1));
             createPredefinedTopic(&clientId, topicName, topicID, aggregate);
             free(clientId.cstring);
         }
-- 
2.43.0


From b260b6cf44f2af27f870cd61eadb0f2b8e02911a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:53 +0000
Subject: [PATCH 057/138] fix: a line of the configuration without '=' or
 without newline is read inside its buffer and completely

---
 MQTTSNGateway/src/MQTTSNGWProcess.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWProcess.cpp b/MQTTSNGateway/src/MQTTSNGWProcess.cpp
index 9473a36..bc9898e 100644
--- a/MQTTSNGateway/src/MQTTSNGWProcess.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWProcess.cpp
@@ -186,7 +186,7 @@ int Process::getParam(const char* parameter, char* value)
         }
 
         len = strlen(str);
-        for (pos = 0; i < len; pos++)
+        for (pos = 0; pos < len; pos++)
         {
             if (str[pos] == '=')
             {
@@ -194,13 +194,11 @@ int Process::getParam(const char* parameter, char* value)
             }
         }
 
-        if (pos == paramlen)
+        if (pos == paramlen && pos < len)
         {
             if (strncmp(str, parameter, paramlen) == 0)
             {
                 strcpy(param, str + pos + 1);
-                param[len - pos - 2] = '\0';
-
 
                 for (i = strlen(param) - 1; i >= 0 && isspace(param[i]); i--)
                     ;
-- 
2.43.0


From 638d92d89e3a19a8136c12466631cf4d8fba0ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:53 +0000
Subject: [PATCH 058/138] fix: a PUBLISH for a sleeping client is acknowledged
 when it is stored, and freed when it is not

---
 MQTTSNGateway/src/MQTTGWPublishHandler.cpp | 24 +++++++++++++---------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
index fb688a6..94a3d6b 100644
--- a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
@@ -56,15 +56,6 @@ void MQTTGWPublishHandler::handlePublish(Client* client, MQTTGWPacket* packet)
         WRITELOG(FORMAT_Y_G_G, currentDateTime(), packet->getName(),
         RIGHTARROW, client->getClientId(), "is sleeping. a message was saved.");
 
-        if (pub.header.bits.qos == 1)
-        {
-            replyACK(client, &pub, PUBACK);
-        }
-        else if (pub.header.bits.qos == 2)
-        {
-            replyACK(client, &pub, PUBREC);
-        }
-
         MQTTGWPacket* msg = new MQTTGWPacket();
         *msg = *packet;
         if (msg->getType() == 0)
@@ -74,7 +65,20 @@ void MQTTGWPublishHandler::handlePublish(Client* client, MQTTGWPacket* packet)
             delete msg;
             return;
         }
-        client->setClientSleepPacket(msg);
+        if (client->setClientSleepPacket(msg) == 0)
+        {
+            delete msg;
+            return;
+        }
+
+        if (pub.header.bits.qos == 1)
+        {
+            replyACK(client, &pub, PUBACK);
+        }
+        else if (pub.header.bits.qos == 2)
+        {
+            replyACK(client, &pub, PUBREC);
+        }
         return;
     }
 
-- 
2.43.0


From 167116fae37b5d1452006bc5ca1bade1cce1a9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:12 +0000
Subject: [PATCH 059/138] fix: a message of an aggregated client is sent to the
 broker with an id or not at all

---
 MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp  | 13 ++++++-----
 .../src/MQTTSNGWSubscribeHandler.cpp          | 22 +++++--------------
 2 files changed, 13 insertions(+), 22 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
index db472e2..cfe8bc9 100644
--- a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
@@ -295,13 +295,14 @@ void MQTTSNPublishHandler::handleAggregatePublish(Client* client, MQTTSNPacket*
     {
         if (publish->getMsgId() > 0)
         {
-            if (packet->isDuplicate())
+            /* a message which is sent again has its id already */
+            msgId = _gateway->getAdapterManager()->getAggregater()->addMessageIdTable(client, packet->getMsgId());
+            if (msgId == 0)
             {
-                msgId = _gateway->getAdapterManager()->getAggregater()->getMsgId(client, packet->getMsgId());
-            }
-            else
-            {
-                msgId = _gateway->getAdapterManager()->getAggregater()->addMessageIdTable(client, packet->getMsgId());
+                WRITELOG("%s MQTTSNPublishHandler can't create MessageIdTableElement  %s%s\n",
+                ERRMSG_HEADER, client->getClientId(), ERRMSG_FOOTER);
+                delete publish;
+                return;
             }
             publish->setMsgId(msgId);
         }
diff --git a/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp b/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
index e21139c..6475c73 100644
--- a/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
@@ -216,19 +216,14 @@ void MQTTSNSubscribeHandler::handleAggregateSubscribe(Client* client, MQTTSNPack
     if (subscribe != nullptr)
     {
         int msgId = 0;
-        if (packet->isDuplicate())
-        {
-            msgId = _gateway->getAdapterManager()->getAggregater()->getMsgId(client, packet->getMsgId());
-        }
-        else
-        {
-            msgId = _gateway->getAdapterManager()->getAggregater()->addMessageIdTable(client, packet->getMsgId());
-        }
+        /* a message which is sent again has its id already */
+        msgId = _gateway->getAdapterManager()->getAggregater()->addMessageIdTable(client, packet->getMsgId());
 
         if (msgId == 0)
         {
             WRITELOG("%s MQTTSNSubscribeHandler can't create MessageIdTableElement  %s%s\n",
             ERRMSG_HEADER, client->getClientId(), ERRMSG_FOOTER);
+            delete subscribe;
             return;
         }
 
@@ -251,19 +246,14 @@ void MQTTSNSubscribeHandler::handleAggregateUnsubscribe(Client* client, MQTTSNPa
     if (unsubscribe != nullptr)
     {
         int msgId = 0;
-        if (packet->isDuplicate())
-        {
-            msgId = _gateway->getAdapterManager()->getAggregater()->getMsgId(client, packet->getMsgId());
-        }
-        else
-        {
-            msgId = _gateway->getAdapterManager()->getAggregater()->addMessageIdTable(client, packet->getMsgId());
-        }
+        /* a message which is sent again has its id already */
+        msgId = _gateway->getAdapterManager()->getAggregater()->addMessageIdTable(client, packet->getMsgId());
 
         if (msgId == 0)
         {
             WRITELOG("%s MQTTSNUnsubscribeHandler can't create MessageIdTableElement  %s%s\n",
             ERRMSG_HEADER, client->getClientId(), ERRMSG_FOOTER);
+            delete unsubscribe;
             return;
         }
 
-- 
2.43.0


From 8c9fe8d739074856f22d7e4d66abb555be4d57bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:12 +0000
Subject: [PATCH 060/138] fix: UNSUBSCRIBE of an aggregated client does not end
 the subscription of the others

---
 .../src/MQTTSNGWSubscribeHandler.cpp          | 24 +++++++++++++++----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp b/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
index 6475c73..a276f6b 100644
--- a/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
@@ -246,6 +246,25 @@ void MQTTSNSubscribeHandler::handleAggregateUnsubscribe(Client* client, MQTTSNPa
     if (unsubscribe != nullptr)
     {
         int msgId = 0;
+        Aggregater* aggregater = _gateway->getAdapterManager()->getAggregater();
+
+        UTF8String str = unsubscribe->getTopic();
+        string* topicName = new string(str.data, str.len); // topicName is delete by topic
+        Topic topic = Topic(topicName, MQTTSN_TOPIC_TYPE_NORMAL);
+        aggregater->removeAggregateTopic(&topic, client);
+
+        if (aggregater->isSubscribed(&topic))
+        {
+            /* other clients need the subscription at the broker */
+            MQTTSNPacket* unsuback = new MQTTSNPacket();
+            unsuback->setUNSUBACK(packet->getMsgId());
+            Event* ev1 = new Event();
+            ev1->setClientSendEvent(client, unsuback);
+            _gateway->getClientSendQue()->post(ev1);
+            delete unsubscribe;
+            return;
+        }
+
         /* a message which is sent again has its id already */
         msgId = _gateway->getAdapterManager()->getAggregater()->addMessageIdTable(client, packet->getMsgId());
 
@@ -257,11 +276,6 @@ void MQTTSNSubscribeHandler::handleAggregateUnsubscribe(Client* client, MQTTSNPa
             return;
         }
 
-        UTF8String str = unsubscribe->getTopic();
-        string* topicName = new string(str.data, str.len); // topicName is delete by topic
-        Topic topic = Topic(topicName, MQTTSN_TOPIC_TYPE_NORMAL);
-        _gateway->getAdapterManager()->getAggregater()->removeAggregateTopic(&topic, client);
-
         unsubscribe->setMsgId(msgId);
         Event* ev = new Event();
         ev->setBrokerSendEvent(client, unsubscribe);
-- 
2.43.0


From 89317617c5fae7252ae99eb8a9e2ef9978559c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:12 +0000
Subject: [PATCH 061/138] fix: the QoS 2 handshake of an aggregated client
 reaches the broker

---
 MQTTSNGateway/src/MQTTGWPublishHandler.cpp   | 12 +++++++-
 MQTTSNGateway/src/MQTTSNGWAggregater.cpp     |  5 ++++
 MQTTSNGateway/src/MQTTSNGWAggregater.h       |  1 +
 MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp | 15 ++++++++++
 MQTTSNGateway/src/MQTTSNGWMessageIdTable.h   |  1 +
 MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp | 30 ++++++++++++++++++++
 6 files changed, 63 insertions(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
index 94a3d6b..085a06b 100644
--- a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
@@ -300,7 +300,17 @@ void MQTTGWPublishHandler::handleAggregateAck(Client* client, MQTTGWPacket* pack
 {
     uint16_t msgId = packet->getMsgId();
     uint16_t clientMsgId = 0;
-    Client* newClient = _gateway->getAdapterManager()->convertClient(msgId, &clientMsgId);
+    Client* newClient;
+
+    if (type == PUBREC)
+    {
+        /* PUBREL and PUBCOMP need the id too */
+        newClient = _gateway->getAdapterManager()->getAggregater()->findClient(msgId, &clientMsgId);
+    }
+    else
+    {
+        newClient = _gateway->getAdapterManager()->convertClient(msgId, &clientMsgId);
+    }
     if (newClient != nullptr)
     {
         packet->setMsgId((int) clientMsgId);
diff --git a/MQTTSNGateway/src/MQTTSNGWAggregater.cpp b/MQTTSNGateway/src/MQTTSNGWAggregater.cpp
index f3c1b10..11243ea 100644
--- a/MQTTSNGateway/src/MQTTSNGWAggregater.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWAggregater.cpp
@@ -64,6 +64,11 @@ Client* Aggregater::convertClient(uint16_t msgId, uint16_t* clientMsgId)
     return _msgIdTable.getClientMsgId(msgId, clientMsgId);
 }
 
+Client* Aggregater::findClient(uint16_t msgId, uint16_t* clientMsgId)
+{
+    return _msgIdTable.findClientMsgId(msgId, clientMsgId);
+}
+
 uint16_t Aggregater::addMessageIdTable(Client* client, uint16_t msgId)
 {
     /* set Non secure client`s nextMsgId. otherwise Id is duplicated.*/
diff --git a/MQTTSNGateway/src/MQTTSNGWAggregater.h b/MQTTSNGateway/src/MQTTSNGWAggregater.h
index b260f10..e6e95f8 100644
--- a/MQTTSNGateway/src/MQTTSNGWAggregater.h
+++ b/MQTTSNGateway/src/MQTTSNGWAggregater.h
@@ -46,6 +46,7 @@ public:
     const char* getClientId(SensorNetAddress* addr);
     Client* getClient(SensorNetAddress* addr);
     Client* convertClient(uint16_t msgId, uint16_t* clientMsgId);
+    Client* findClient(uint16_t msgId, uint16_t* clientMsgId);
     uint16_t addMessageIdTable(Client* client, uint16_t msgId);
     uint16_t getMsgId(Client* client, uint16_t clientMsgId);
 
diff --git a/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp b/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp
index ad9a1b2..7b5848b 100644
--- a/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp
@@ -120,6 +120,21 @@ Client* MessageIdTable::getClientMsgId(uint16_t msgId, uint16_t* clientMsgId)
     return clt;
 }
 
+Client* MessageIdTable::findClientMsgId(uint16_t msgId, uint16_t* clientMsgId)
+{
+    Client* clt = nullptr;
+    *clientMsgId = 0;
+    _mutex.lock();
+    MessageIdElement* p = find(msgId);
+    if (p != nullptr)
+    {
+        clt = p->_client;
+        *clientMsgId = p->_clientMsgId;
+    }
+    _mutex.unlock();
+    return clt;
+}
+
 void MessageIdTable::erase(uint16_t msgId)
 {
     _mutex.lock();
diff --git a/MQTTSNGateway/src/MQTTSNGWMessageIdTable.h b/MQTTSNGateway/src/MQTTSNGWMessageIdTable.h
index 2f0b5e6..14ba350 100644
--- a/MQTTSNGateway/src/MQTTSNGWMessageIdTable.h
+++ b/MQTTSNGateway/src/MQTTSNGWMessageIdTable.h
@@ -40,6 +40,7 @@ public:
     MessageIdElement* add(Aggregater* aggregater, Client* client,
             uint16_t clientMsgId);
     Client* getClientMsgId(uint16_t msgId, uint16_t* clientMsgId);
+    Client* findClientMsgId(uint16_t msgId, uint16_t* clientMsgId);
     uint16_t getMsgId(Client* client, uint16_t clientMsgId);
     void erase(uint16_t msgId);
     void clear(MessageIdElement* elm);
diff --git a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
index cfe8bc9..3ba0e9b 100644
--- a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
@@ -328,4 +328,34 @@ void MQTTSNPublishHandler::handleAggregateAck(Client* client, MQTTSNPacket* pack
         ev->setClientSendEvent(client, ackPacket);
         _gateway->getClientSendQue()->post(ev);
     }
+    else if (type == MQTTSN_PUBREL)
+    {
+        uint16_t msgId;
+
+        if (packet->getACK(&msgId) == 0)
+        {
+            return;
+        }
+
+        uint16_t brokerMsgId = _gateway->getAdapterManager()->getAggregater()->getMsgId(client, msgId);
+
+        if (brokerMsgId != 0)
+        {
+            /* the broker answers with PUBCOMP */
+            MQTTGWPacket* pubRel = new MQTTGWPacket();
+            pubRel->setAck(PUBREL, brokerMsgId);
+            Event* ev = new Event();
+            ev->setBrokerSendEvent(client, pubRel);
+            _gateway->getBrokerSendQue()->post(ev);
+        }
+        else
+        {
+            /* the message is complete already */
+            MQTTSNPacket* pubComp = new MQTTSNPacket();
+            pubComp->setPUBCOMP(msgId);
+            Event* ev = new Event();
+            ev->setClientSendEvent(client, pubComp);
+            _gateway->getClientSendQue()->post(ev);
+        }
+    }
 }
-- 
2.43.0


From ed5a14c56083a091433388f9c0859528b65f2e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:12 +0000
Subject: [PATCH 062/138] fix: the aggregater acknowledges each message of the
 broker exactly once

---
 MQTTSNGateway/src/MQTTGWPublishHandler.cpp | 46 ++++++++++++++--------
 MQTTSNGateway/src/MQTTGWPublishHandler.h   |  1 +
 2 files changed, 30 insertions(+), 17 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
index 085a06b..978a23e 100644
--- a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
@@ -71,14 +71,7 @@ void MQTTGWPublishHandler::handlePublish(Client* client, MQTTGWPacket* packet)
             return;
         }
 
-        if (pub.header.bits.qos == 1)
-        {
-            replyACK(client, &pub, PUBACK);
-        }
-        else if (pub.header.bits.qos == 2)
-        {
-            replyACK(client, &pub, PUBREC);
-        }
+        replyAck(client, &pub);
         return;
     }
 
@@ -123,15 +116,7 @@ void MQTTGWPublishHandler::handlePublish(Client* client, MQTTGWPacket* packet)
             {
                 WRITELOG("%sMQTTGWPublishHandler Invalid Topic. PUBLISH message is discarded.%s\n",
                 ERRMSG_HEADER, ERRMSG_FOOTER);
-                if (pub.header.bits.qos == 1)
-                {
-                    replyACK(client, &pub, PUBACK);
-                }
-                else if (pub.header.bits.qos == 2)
-                {
-                    replyACK(client, &pub, PUBREC);
-                }
-
+                replyAck(client, &pub);
                 delete snPacket;
                 return;
             }
@@ -211,6 +196,23 @@ void MQTTGWPublishHandler::handlePublish(Client* client, MQTTGWPacket* packet)
 
 }
 
+void MQTTGWPublishHandler::replyAck(Client* client, Publish* pub)
+{
+    if (client->isAggregated())
+    {
+        return; // handleAggregatePublish() has done it
+    }
+
+    if (pub->header.bits.qos == 1)
+    {
+        replyACK(client, pub, PUBACK);
+    }
+    else if (pub->header.bits.qos == 2)
+    {
+        replyACK(client, pub, PUBREC);
+    }
+}
+
 void MQTTGWPublishHandler::replyACK(Client* client, Publish* pub, int type)
 {
     MQTTGWPacket* pubAck = new MQTTGWPacket();
@@ -333,6 +335,16 @@ void MQTTGWPublishHandler::handleAggregatePublish(Client* client, MQTTGWPacket*
         return;
     }
 
+    /* the clients do not acknowledge, the message comes only once from the broker */
+    if (pub.header.bits.qos == 1)
+    {
+        replyACK(client, &pub, PUBACK);
+    }
+    else if (pub.header.bits.qos == 2)
+    {
+        replyACK(client, &pub, PUBREC);
+    }
+
     string* topicName = new string(pub.topic, pub.topiclen); // topic deletes topicName when the topic is deleted
     Topic topic = Topic(topicName, MQTTSN_TOPIC_TYPE_NORMAL);
 
diff --git a/MQTTSNGateway/src/MQTTGWPublishHandler.h b/MQTTSNGateway/src/MQTTGWPublishHandler.h
index c32faee..08001a8 100644
--- a/MQTTSNGateway/src/MQTTGWPublishHandler.h
+++ b/MQTTSNGateway/src/MQTTGWPublishHandler.h
@@ -38,6 +38,7 @@ public:
     void handleAggregatePubrel(Client* client, MQTTGWPacket* packet);
 
 private:
+    void replyAck(Client* client, Publish* pub);
     void replyACK(Client* client, Publish* pub, int type);
 
     Gateway* _gateway;
-- 
2.43.0


From 388ed95d0ad3e401dc095f7d7f7d05fb0de9f96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:12 +0000
Subject: [PATCH 063/138] fix: a clean session of an aggregated client forgets
 its subscriptions of short and predefined topics too

---
 .../src/MQTTSNAggregateConnectionHandler.cpp   | 10 +---------
 .../src/MQTTSNGWAggregateTopicTable.cpp        | 18 ++++++++++++++++++
 .../src/MQTTSNGWAggregateTopicTable.h          |  1 +
 MQTTSNGateway/src/MQTTSNGWAggregater.cpp       |  5 +++++
 4 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp b/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp
index 378c65a..1212389 100644
--- a/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp
@@ -77,17 +77,9 @@ void MQTTSNAggregateConnectionHandler::handleConnect(Client* client, MQTTSNPacke
         client->clearWaitedSubTopicId();
 
         /* renew the TopicList */
+        _gateway->getAdapterManager()->getAggregater()->removeAggregateAllTopic(client);
         if (topics)
         {
-            Topic* tp = topics->getFirstTopic();
-            while (tp != nullptr)
-            {
-                if (tp->getType() == MQTTSN_TOPIC_TYPE_NORMAL)
-                {
-                    _gateway->getAdapterManager()->getAggregater()->removeAggregateTopic(tp, client);
-                }
-                tp = topics->getNextTopic(tp);
-            }
             topics->eraseNormal();
         }
         client->setSessionStatus(true);
diff --git a/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp b/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp
index 8e79d73..bf10ec4 100644
--- a/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp
@@ -238,6 +238,24 @@ void AggregateTopicTable::erase(Topic* topic, Client* client)
     return;
 }
 
+void AggregateTopicTable::erase(Client* client)
+{
+    _mutex.lock();
+    AggregateTopicElement* elm = _head;
+
+    while (elm != nullptr)
+    {
+        AggregateTopicElement* next = elm->_next;
+        elm->eraseClient(client);
+        if (elm->_head == nullptr)
+        {
+            erase(elm);
+        }
+        elm = next;
+    }
+    _mutex.unlock();
+}
+
 void AggregateTopicTable::erase(AggregateTopicElement* elmTopic)
 {
     if (elmTopic != nullptr)
diff --git a/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.h b/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.h
index 6766ba6..f768de9 100644
--- a/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.h
+++ b/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.h
@@ -44,6 +44,7 @@ public:
     AggregateTopicElement* find(Topic* topic);
     ClientTopicElement* getClientElement(Topic* topic);
     void erase(Topic* topic, Client* client);
+    void erase(Client* client);
     void clear(void);
 
     void print(void);
diff --git a/MQTTSNGateway/src/MQTTSNGWAggregater.cpp b/MQTTSNGateway/src/MQTTSNGWAggregater.cpp
index 11243ea..5d468b3 100644
--- a/MQTTSNGateway/src/MQTTSNGWAggregater.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWAggregater.cpp
@@ -99,6 +99,11 @@ void Aggregater::removeAggregateTopic(Topic* topic, Client* client)
     _topicTable.erase(topic, client);
 }
 
+void Aggregater::removeAggregateAllTopic(Client* client)
+{
+    _topicTable.erase(client);
+}
+
 AggregateTopicElement* Aggregater::findTopic(Topic* topic)
 {
     return _topicTable.getAggregateTopicElement(topic);
-- 
2.43.0


From ea7e44ee12185bc58917e30764e0be89c1aff7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:49 +0000
Subject: [PATCH 064/138] fix: the name of a topic to be registered for a
 persistent session is not overwritten by the topic id

---
 MQTTSNGateway/src/MQTTGWPublishHandler.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
index 978a23e..241d255 100644
--- a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
@@ -126,7 +126,6 @@ void MQTTGWPublishHandler::handlePublish(Client* client, MQTTGWPacket* packet)
                 topicId.type = MQTTSN_TOPIC_TYPE_NORMAL;
                 topicId.data.long_.len = pub.topiclen;
                 topicId.data.long_.name = pub.topic;
-                topicId.data.id = 0;
             }
 
             /* add the Topic and get a TopicId */
-- 
2.43.0


From be6f53216d0e2aa65b88c7e76e0bc6e3a2013162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:08 +0000
Subject: [PATCH 065/138] fix: a client which moves behind a forwarder leaves
 its former address

---
 MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp b/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
index 88ecbbc..99278bf 100644
--- a/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
@@ -151,6 +151,12 @@ void ClientRecvTask::run()
             if (client == nullptr)
             {
                 client = _gateway->getClientList()->getClient(&senderAddr);
+
+                if (client != nullptr && client->getForwarder() != nullptr)
+                {
+                    /* the client is behind a forwarder, not at this address any more */
+                    client = nullptr;
+                }
             }
         }
 
@@ -210,6 +216,12 @@ void ClientRecvTask::run()
                     }
                     if (client != nullptr)
                     {
+                        if (_gateway->getGWParams()->clientAuthentication == false)
+                        {
+                            /* the client leaves its former address */
+                            SensorNetAddress noAddr;
+                            client->setClientAddress(&noAddr);
+                        }
                         /* Add to a forwarded client list of forwarder. */
                         fwd->addClient(client, &nodeId);
                     }
-- 
2.43.0


From 463703cc74cb1adb934ea664317ff1de391e4cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:55 +0000
Subject: [PATCH 066/138] fix: an empty topic filter was sent to the broker,
 which MQTT forbids

---
 MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp b/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
index a276f6b..c589043 100644
--- a/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
@@ -86,6 +86,13 @@ MQTTGWPacket* MQTTSNSubscribeHandler::handleSubscribe(Client* client, MQTTSNPack
     }
     else if (topicFilter.type == MQTTSN_TOPIC_TYPE_NORMAL)
     {
+        if (topicFilter.data.long_.len == 0 || topicFilter.data.long_.name[0] == 0)
+        {
+            /* MQTT does not allow an empty topic filter */
+            topicFilter.data.id = 0;
+            goto RespExit;
+        }
+
         topic = client->getTopics()->getTopicByName(&topicFilter);
         if (topic == nullptr)
         {
@@ -103,7 +110,7 @@ MQTTGWPacket* MQTTSNSubscribeHandler::handleSubscribe(Client* client, MQTTSNPack
 
         subscribe->setSUBSCRIBE((char*) topic->getTopicName()->c_str(), (uint8_t) qos, (uint16_t) msgId);
     }
-    else if (topicFilter.type != MQTTSN_TOPIC_TYPE_SHORT)
+    else if (topicFilter.type != MQTTSN_TOPIC_TYPE_SHORT || topicFilter.data.short_name[0] == 0)
     {
         topicFilter.data.id = 0;
         goto RespExit;
@@ -158,7 +165,7 @@ MQTTGWPacket* MQTTSNSubscribeHandler::handleUnsubscribe(Client* client, MQTTSNPa
         return nullptr;
     }
 
-    if (topicFilter.type == MQTTSN_TOPIC_TYPE_SHORT)
+    if (topicFilter.type == MQTTSN_TOPIC_TYPE_SHORT && topicFilter.data.short_name[0] != 0)
     {
         char shortTopic[3];
         shortTopic[0] = topicFilter.data.short_name[0];
-- 
2.43.0


From 493c739d970c407d746934858da61ec2a42d1446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:55 +0000
Subject: [PATCH 067/138] fix: a SUBSCRIBE with QoS -1 was sent to the broker
 with QoS 3

---
 MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp b/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
index c589043..ce25555 100644
--- a/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
@@ -45,6 +45,7 @@ MQTTGWPacket* MQTTSNSubscribeHandler::handleSubscribe(Client* client, MQTTSNPack
     MQTTGWPacket* subscribe;
     Event* ev1;
     Event* evsuback;
+    uint8_t returnCode = MQTTSN_RC_REJECTED_INVALID_TOPIC_ID;
 
     if (packet->getSUBSCRIBE(&dup, &qos, &msgId, &topicFilter) == 0)
     {
@@ -56,6 +57,15 @@ MQTTGWPacket* MQTTSNSubscribeHandler::handleSubscribe(Client* client, MQTTSNPack
         return nullptr;
     }
 
+    if (qos < 0 || qos > 2)
+    {
+        /* nothing can be subscribed with QoS -1 */
+        qos = 0;
+        topicFilter.data.id = 0;
+        returnCode = MQTTSN_RC_NOT_SUPPORTED;
+        goto RespExit;
+    }
+
     if (topicFilter.type == MQTTSN_TOPIC_TYPE_PREDEFINED)
     {
         topic = client->getTopics()->getTopicById(&topicFilter);
@@ -142,7 +152,7 @@ MQTTGWPacket* MQTTSNSubscribeHandler::handleSubscribe(Client* client, MQTTSNPack
     }
 
     RespExit: MQTTSNPacket* sSuback = new MQTTSNPacket();
-    sSuback->setSUBACK(qos, topicFilter.data.id, msgId, MQTTSN_RC_REJECTED_INVALID_TOPIC_ID);
+    sSuback->setSUBACK(qos, topicFilter.data.id, msgId, returnCode);
     evsuback = new Event();
     evsuback->setClientSendEvent(client, sSuback);
     _gateway->getClientSendQue()->post(evsuback);
-- 
2.43.0


From 188984a32b546c5dab0c346e50126338cca799b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:24 +0000
Subject: [PATCH 068/138] fix: a client could connect in the name of an adapter
 or of a QoS-1 client

---
 MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp b/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
index 99278bf..364a05c 100644
--- a/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
@@ -207,6 +207,17 @@ void ClientRecvTask::run()
 
                 client = clientList->getClient(&data.clientID);
 
+                if (client != nullptr && (client->isAdapter() || client->isQoSm1()))
+                {
+                    /* these never connect by themselves */
+                    log(client, packet, &data.clientID);
+                    WRITELOG("%s Client(%s) can't CONNECT as %s. CONNECT message has been discarded.%s\n",
+                    ERRMSG_HEADER, senderAddr.sprint(buf), client->getClientId(),
+                    ERRMSG_FOOTER);
+                    delete packet;
+                    continue;
+                }
+
                 if (fwd != nullptr)
                 {
                     if (client == nullptr && !clientList->isAuthorized())
-- 
2.43.0


From 28e4cb77f116d2f855523fb61920e7f5aa10abdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:24 +0000
Subject: [PATCH 069/138] fix: a PUBLISH of the broker with the reserved QoS 3
 was handed on with a broken topic

---
 MQTTSNGateway/src/MQTTGWPacket.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTGWPacket.cpp b/MQTTSNGateway/src/MQTTGWPacket.cpp
index f99b8a5..4a0ee68 100644
--- a/MQTTSNGateway/src/MQTTGWPacket.cpp
+++ b/MQTTSNGateway/src/MQTTGWPacket.cpp
@@ -292,7 +292,7 @@ int MQTTGWPacket::getSUBACK(unsigned short* msgId, unsigned char* rc)
 int MQTTGWPacket::getPUBLISH(Publish* pub)
 {
     int fixedlen = _header.bits.qos > 0 ? 4 : 2;
-    if (_header.bits.type != PUBLISH || _remainingLength < fixedlen)
+    if (_header.bits.type != PUBLISH || _header.bits.qos == 3 || _remainingLength < fixedlen)
     {
         return 0;
     }
-- 
2.43.0


From b1004a1894a3f40acb3a136e1487f30c484bebaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:58 +0000
Subject: [PATCH 070/138] fix: a will with the reserved QoS 3 was sent to the
 broker, which MQTT forbids

---
 MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp b/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp
index 4857a48..ece2411 100644
--- a/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp
@@ -175,6 +175,12 @@ void MQTTSNConnectionHandler::handleWilltopic(Client* client, MQTTSNPacket* pack
     {
         return;
     }
+    if (willQos < 0 || willQos > 2)
+    {
+        WRITELOG("%s     The QoS of the will of %s is invalid. WILLTOPIC is discarded.%s\n",
+        ERRMSG_HEADER, client->getClientId(), ERRMSG_FOOTER);
+        return;
+    }
     client->setWillTopic(willTopic);
     Connect* connectData = client->getConnectData();
 
-- 
2.43.0


From 809183ede3745ecf0fc40c4036ea880f2342ab72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:48 +0000
Subject: [PATCH 071/138] fix: the event queue looked at its length without the
 lock while other tasks change it

---
 MQTTSNGateway/src/MQTTSNGateway.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGateway.cpp b/MQTTSNGateway/src/MQTTSNGateway.cpp
index 8ddde4b..3978550 100644
--- a/MQTTSNGateway/src/MQTTSNGateway.cpp
+++ b/MQTTSNGateway/src/MQTTSNGateway.cpp
@@ -461,7 +461,7 @@ Event* EventQue::wait(void)
 
     while (ev == nullptr)
     {
-        if (_que.size() == 0)
+        if (size() == 0)
         {
             _sem.wait();
         }
@@ -476,7 +476,7 @@ Event* EventQue::wait(void)
 Event* EventQue::timedwait(uint16_t millsec)
 {
     Event* ev;
-    if (_que.size() == 0)
+    if (size() == 0)
     {
         _sem.timedwait(millsec);
     }
-- 
2.43.0


From 7e54511caea8f1a220d161ac623e1aa9add01538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:56 +0000
Subject: [PATCH 072/138] fix: a certificate without a name, or whose name
 holds a NUL or begins with *, was compared with what lies behind it or
 accepted for another host

---
 MQTTSNGateway/src/linux/Network.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/MQTTSNGateway/src/linux/Network.cpp b/MQTTSNGateway/src/linux/Network.cpp
index 29e92d0..d3437ae 100644
--- a/MQTTSNGateway/src/linux/Network.cpp
+++ b/MQTTSNGateway/src/linux/Network.cpp
@@ -386,15 +386,24 @@ bool Network::connect(const char* host, const char* port, const char* caPath, co
 			throw false;
 		}
 
+		int len = -1;
 		peer = SSL_get_peer_certificate(_ssl);
-		X509_NAME_get_text_by_NID(X509_get_subject_name(peer), NID_commonName, peer_CN, 256);
+		if (peer != nullptr)
+		{
+			len = X509_NAME_get_text_by_NID(X509_get_subject_name(peer), NID_commonName, peer_CN, 256);
+		}
+		if (len < 0)
+		{
+			peer_CN[0] = 0;
+		}
+		const char* name = host;
 		char* pos = peer_CN;
-		if ( *pos == '*')
+		if (strncmp(pos, "*.", 2) == 0 && strchr(host, '.') != nullptr)
 		{
-			while (*host++ != '.');
+			name = strchr(host, '.') + 1;
 			pos += 2;
 		}
-		if ( strcmp(host, pos))
+		if (len <= 0 || (int) strlen(peer_CN) != len || strcmp(name, pos))
 		{
 			WRITELOG("SSL_get_peer_certificate() error: Broker %s dosen't match the host name %s\n", peer_CN, host);
 			SSL_free(_ssl);
-- 
2.43.0


From b34d5f40b63d8c14df89ac67f5d2053b7b7ab040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:11 +0000
Subject: [PATCH 073/138] fix: a TLS connection closed by the broker was never
 freed

---
 MQTTSNGateway/src/linux/Network.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MQTTSNGateway/src/linux/Network.cpp b/MQTTSNGateway/src/linux/Network.cpp
index d3437ae..0fd5f00 100644
--- a/MQTTSNGateway/src/linux/Network.cpp
+++ b/MQTTSNGateway/src/linux/Network.cpp
@@ -547,6 +547,7 @@ loop:
 			break;
 		case SSL_ERROR_ZERO_RETURN:
 			SSL_shutdown(_ssl);
+			SSL_free(_ssl);
 			_ssl = 0;
 			_numOfInstance--;
 			//TCPStack::close();
-- 
2.43.0


From dbf792d041f062f8258796dc90881d4b3fb38b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:26 +0000
Subject: [PATCH 074/138] fix: a TLS connection was taken for closed by one
 task while another was using it

---
 MQTTSNGateway/src/linux/Network.cpp | 17 +----------------
 MQTTSNGateway/src/linux/Network.h   |  1 -
 2 files changed, 1 insertion(+), 17 deletions(-)

diff --git a/MQTTSNGateway/src/linux/Network.cpp b/MQTTSNGateway/src/linux/Network.cpp
index 0fd5f00..e860e38 100644
--- a/MQTTSNGateway/src/linux/Network.cpp
+++ b/MQTTSNGateway/src/linux/Network.cpp
@@ -243,7 +243,6 @@ Network::Network() :
 {
 	_ssl = 0;
 	_secureFlg = false;
-	_busy = false;
 	_sslValid = false;
 }
 
@@ -453,7 +452,6 @@ int Network::send(const uint8_t* buf, uint16_t length)
 			_mutex.unlock();
 			return -1;
 		}
-		_busy = true;
 
 		while (true)
 		{
@@ -478,7 +476,6 @@ int Network::send(const uint8_t* buf, uint16_t length)
 						bpos += r;
 						if (length == 0)
 						{
-							_busy = false;
 							_mutex.unlock();
 							return bpos;
 						}
@@ -491,7 +488,6 @@ int Network::send(const uint8_t* buf, uint16_t length)
 					default:
 						ERR_error_string_n(ERR_get_error(), errmsg, sizeof(errmsg));
 						WRITELOG("TLSStack::send() default %s\n", errmsg);
-						_busy = false;
 						_mutex.unlock();
 						return -1;
 					}
@@ -517,10 +513,6 @@ int Network::recv(uint8_t* buf, uint16_t len)
 		return TCPStack::recv(buf, len);
 	}
 
-	if (_busy)
-	{
-		return 0;
-	}
 	_mutex.lock();
 
 	if ( !_ssl )
@@ -529,7 +521,6 @@ int Network::recv(uint8_t* buf, uint16_t len)
 		return 0;
 	}
 
-	_busy = true;
 loop:
 	do
 	{
@@ -541,7 +532,6 @@ loop:
 		switch (SSL_get_error(_ssl, rlen))
 		{
 		case SSL_ERROR_NONE:
-			_busy = false;
 			_mutex.unlock();
 			return rlen + bpos;
 			break;
@@ -551,7 +541,6 @@ loop:
 			_ssl = 0;
 			_numOfInstance--;
 			//TCPStack::close();
-			_busy = false;
 			_mutex.unlock();
 			return -1;
 			break;
@@ -566,14 +555,12 @@ loop:
 			_ssl = 0;
 			_numOfInstance--;
 			//TCPStack::close();
-			_busy = false;
 			_mutex.unlock();
 			return -1;
 			break;
 		default:
 			ERR_error_string_n(ERR_get_error(), errmsg, sizeof(errmsg));
 			WRITELOG("Network::recv() %s\n", errmsg);
-			_busy = false;
 			_mutex.unlock();
 			return -1;
 		}
@@ -599,7 +586,6 @@ loop:
 		{
 			ERR_error_string_n(ERR_get_error(), errmsg, sizeof(errmsg));
 			WRITELOG("TLSStack::recv() select %s\n", errmsg);
-			_busy = false;
 			_mutex.unlock();
 			return -1;
 		}
@@ -618,7 +604,6 @@ void Network::close(void)
 			_numOfInstance--;
 			_ssl = 0;
 			_sslValid = false;
-			_busy = false;
 		}
 		if (_session && _numOfInstance == 0)
 		{
@@ -642,7 +627,7 @@ bool Network::isValid()
 	{
 		if (_secureFlg)
 		{
-			if (_sslValid && !_busy)
+			if (_sslValid)
 			{
 				return true;
 			}
diff --git a/MQTTSNGateway/src/linux/Network.h b/MQTTSNGateway/src/linux/Network.h
index f2fab7b..bb98de3 100644
--- a/MQTTSNGateway/src/linux/Network.h
+++ b/MQTTSNGateway/src/linux/Network.h
@@ -89,7 +89,6 @@ private:
 	SSL* _ssl;
 	bool _secureFlg;
 	Mutex _mutex;
-	bool _busy;
 	bool _sslValid;
 };
 
-- 
2.43.0


From fe554b5fed0ab4cc59113e994651534cdd457c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:17 +0000
Subject: [PATCH 075/138] fix: a TLS connection lost by the broker left its
 successor valid before that was verified

---
 MQTTSNGateway/src/linux/Network.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/linux/Network.cpp b/MQTTSNGateway/src/linux/Network.cpp
index e860e38..bb4e25c 100644
--- a/MQTTSNGateway/src/linux/Network.cpp
+++ b/MQTTSNGateway/src/linux/Network.cpp
@@ -603,8 +603,8 @@ void Network::close(void)
 			SSL_free(_ssl);
 			_numOfInstance--;
 			_ssl = 0;
-			_sslValid = false;
 		}
+		_sslValid = false;
 		if (_session && _numOfInstance == 0)
 		{
 			SSL_SESSION_free(_session);
-- 
2.43.0


From fb2f188bbad30020ffd473c8ed5e570fefb97b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:17 +0000
Subject: [PATCH 076/138] fix: a packet which the socket takes only partly was
 cut off

---
 MQTTSNGateway/src/linux/Network.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/linux/Network.cpp b/MQTTSNGateway/src/linux/Network.cpp
index bb4e25c..fdba9b3 100644
--- a/MQTTSNGateway/src/linux/Network.cpp
+++ b/MQTTSNGateway/src/linux/Network.cpp
@@ -14,6 +14,7 @@
  *    Tomoaki Yamaguchi - initial API and implementation and/or initial documentation
  **************************************************************************************/
 
+#include <errno.h>
 #include <string.h>
 #include <openssl/ssl.h>
 #include <openssl/err.h>
@@ -146,10 +147,27 @@ bool TCPStack::accept(TCPStack& new_socket)
 int TCPStack::send(const uint8_t* buf, int length)
 {
 #ifdef __APPLE__
-	return ::send(_sockfd, buf, length, SO_NOSIGPIPE);
+	const int flags = SO_NOSIGPIPE;
 #else
-	return ::send(_sockfd, buf, length, MSG_NOSIGNAL);
+	const int flags = MSG_NOSIGNAL;
 #endif
+	int pos = 0;
+
+	/* the socket may take the data in pieces */
+	while (pos < length)
+	{
+		int rc = ::send(_sockfd, buf + pos, length - pos, flags);
+		if (rc < 0 && errno == EINTR)
+		{
+			continue;
+		}
+		if (rc <= 0)
+		{
+			return -1;
+		}
+		pos += rc;
+	}
+	return pos;
 }
 
 int TCPStack::recv(uint8_t* buf, int len)
-- 
2.43.0


From 02e474303ea89f3292e311b27f569be7c18b675c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:18 +0000
Subject: [PATCH 077/138] fix: a message of the broker which came in one TLS
 record with another waited until more came

---
 MQTTSNGateway/src/MQTTSNGWBrokerRecvTask.cpp | 15 +++++++++++++--
 MQTTSNGateway/src/linux/Network.cpp          |  9 +++++++++
 MQTTSNGateway/src/linux/Network.h            |  1 +
 3 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWBrokerRecvTask.cpp b/MQTTSNGateway/src/MQTTSNGWBrokerRecvTask.cpp
index b702ab5..b2c0ef2 100644
--- a/MQTTSNGateway/src/MQTTSNGWBrokerRecvTask.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWBrokerRecvTask.cpp
@@ -74,6 +74,7 @@ void BrokerRecvTask::run(void)
         FD_ZERO(&wset);
         int maxSock = 0;
         int sockfd = 0;
+        bool pending = false;
 
         /* Prepare sockets list to read */
         Client* client = _gateway->getClientList()->getClient(0);
@@ -85,6 +86,11 @@ void BrokerRecvTask::run(void)
                 sockfd = client->getNetwork()->getSock();
                 FD_SET(sockfd, &rset);
                 FD_SET(sockfd, &wset);
+                if (client->getNetwork()->hasPendingData())
+                {
+                    pending = true;
+                    timeout.tv_usec = 0;
+                }
                 if (sockfd > maxSock)
                 {
                     maxSock = sockfd;
@@ -102,7 +108,12 @@ void BrokerRecvTask::run(void)
             /* Check sockets is ready to read */
             int activity = select(maxSock + 1, &rset, 0, 0, &timeout);
 
-            if (activity > 0)
+            if (activity <= 0)
+            {
+                FD_ZERO(&rset);
+            }
+
+            if (activity > 0 || pending)
             {
                 client = _gateway->getClientList()->getClient(0);
 
@@ -112,7 +123,7 @@ void BrokerRecvTask::run(void)
                     if (client->getNetwork()->isValid())
                     {
                         int sockfd = client->getNetwork()->getSock();
-                        if (FD_ISSET(sockfd, &rset))
+                        if (FD_ISSET(sockfd, &rset) || client->getNetwork()->hasPendingData())
                         {
                             packet = new MQTTGWPacket();
                             rc = 0;
diff --git a/MQTTSNGateway/src/linux/Network.cpp b/MQTTSNGateway/src/linux/Network.cpp
index fdba9b3..851de8e 100644
--- a/MQTTSNGateway/src/linux/Network.cpp
+++ b/MQTTSNGateway/src/linux/Network.cpp
@@ -658,6 +658,15 @@ bool Network::isValid()
 	return false;
 }
 
+/* data of the broker which left the socket already, but not the TLS layer */
+bool Network::hasPendingData()
+{
+	_mutex.lock();
+	bool rc = _secureFlg && _ssl && SSL_pending(_ssl) > 0;
+	_mutex.unlock();
+	return rc;
+}
+
 int Network::getSock()
 {
 	return TCPStack::getSock();
diff --git a/MQTTSNGateway/src/linux/Network.h b/MQTTSNGateway/src/linux/Network.h
index bb98de3..bf22bd0 100644
--- a/MQTTSNGateway/src/linux/Network.h
+++ b/MQTTSNGateway/src/linux/Network.h
@@ -78,6 +78,7 @@ public:
 	int  recv(uint8_t* buf, uint16_t len);
 
 	bool isValid(void);
+	bool hasPendingData(void);
 	bool isSecure(void);
 	int  getSock(void);
     void setSecure(bool secureFlg);
-- 
2.43.0


From 3f7be7f4d3c956b079121749592620acf72f93ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:30 +0000
Subject: [PATCH 078/138] fix: a GatewayID above 255 was accepted as another
 one

---
 MQTTSNGateway/src/MQTTSNGateway.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGateway.cpp b/MQTTSNGateway/src/MQTTSNGateway.cpp
index 3978550..604e61d 100644
--- a/MQTTSNGateway/src/MQTTSNGateway.cpp
+++ b/MQTTSNGateway/src/MQTTSNGateway.cpp
@@ -192,15 +192,17 @@ void Gateway::initialize(int argc, char** argv)
         _params.gwPrivatekey = strdup(param);
     }
 
+    int gatewayId = 0;
     if (getParam("GatewayID", param) == 0)
     {
-        _params.gatewayId = atoi(param);
+        gatewayId = atoi(param);
     }
 
-    if (_params.gatewayId == 0 || _params.gatewayId > 255)
+    if (gatewayId <= 0 || gatewayId > 255)
     {
         throw Exception("Gateway::initialize: invalid Gateway Id", 0);
     }
+    _params.gatewayId = gatewayId;
 
     if (getParam("GatewayName", param) == 0)
     {
-- 
2.43.0


From 26c405cb2fc956b20df46ed7cc6ce7a78d996ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:31 +0000
Subject: [PATCH 079/138] fix: a client listed with a port above 65535 or below
 0 was given another port

---
 MQTTSNGateway/src/linux/udp/SensorNetwork.cpp  | 3 ++-
 MQTTSNGateway/src/linux/udp6/SensorNetwork.cpp | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/linux/udp/SensorNetwork.cpp b/MQTTSNGateway/src/linux/udp/SensorNetwork.cpp
index e855619..b6825e0 100644
--- a/MQTTSNGateway/src/linux/udp/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/udp/SensorNetwork.cpp
@@ -108,7 +108,8 @@ int SensorNetAddress::setAddress(string* ip_port)
 	string port = ip_port->substr(pos + 1);
 	int portNo = 0;
 
-	if ((portNo = atoi(port.c_str())) == 0 || (_IpAddr = inet_addr(ip.c_str())) == INADDR_NONE)
+	portNo = atoi(port.c_str());
+	if (portNo <= 0 || portNo > 0xffff || (_IpAddr = inet_addr(ip.c_str())) == INADDR_NONE)
 	{
 		return -1;
 	}
diff --git a/MQTTSNGateway/src/linux/udp6/SensorNetwork.cpp b/MQTTSNGateway/src/linux/udp6/SensorNetwork.cpp
index 353d793..9364686 100644
--- a/MQTTSNGateway/src/linux/udp6/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/udp6/SensorNetwork.cpp
@@ -78,7 +78,7 @@ int SensorNetAddress::setAddress(string* data)
         int portNo = 0;
         string port = data->substr(pos + 1);
 
-        if ((portNo = atoi(port.c_str())) > 0)
+        if ((portNo = atoi(port.c_str())) > 0 && portNo <= 0xffff)
         {
             _IpAddr.sin6_port = htons(portNo);
             _IpAddr.sin6_family = AF_INET6;
-- 
2.43.0


From ea773a895599a2a2cabbed101f1d0cf4ddd3f040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:31 +0000
Subject: [PATCH 080/138] fix: the sockets of a UDP network which cannot be
 opened were left open, or others closed

---
 MQTTSNGateway/src/linux/udp/SensorNetwork.cpp  | 13 ++++++++-----
 MQTTSNGateway/src/linux/udp6/SensorNetwork.cpp |  1 +
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/MQTTSNGateway/src/linux/udp/SensorNetwork.cpp b/MQTTSNGateway/src/linux/udp/SensorNetwork.cpp
index b6825e0..24d1713 100644
--- a/MQTTSNGateway/src/linux/udp/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/udp/SensorNetwork.cpp
@@ -295,15 +295,16 @@ int UDPPort::open(const char *multicastIP, uint16_t multiPortNo, uint16_t uniPor
     addru.sin_port = htons(uniPortNo);
     addru.sin_addr.s_addr = INADDR_ANY;
 
+    _pollFds[0].fd = sock;
+    _pollFds[0].events = POLLIN;
+
     if (::bind(sock, (sockaddr*) &addru, sizeof(addru)) < 0)
 	{
 		D_NWSTACK("error can't bind unicast socket in UDPPort::open\n");
+		close();
 		return -1;
 	}
 
-    _pollFds[0].fd = sock;
-    _pollFds[0].events = POLLIN;
-
     /*------ Create Multicast socket --------*/
     sock = socket(AF_INET, SOCK_DGRAM, 0);
     if (sock < 0)
@@ -313,6 +314,9 @@ int UDPPort::open(const char *multicastIP, uint16_t multiPortNo, uint16_t uniPor
 		return -1;
 	}
 
+    _pollFds[1].fd = sock;
+    _pollFds[1].events = POLLIN;
+
     optval = 1;
     setsockopt(sock, SOL_SOCKET, SO_REUSEADDR, &optval, sizeof(optval));
 
@@ -324,6 +328,7 @@ int UDPPort::open(const char *multicastIP, uint16_t multiPortNo, uint16_t uniPor
     if (::bind(sock, (sockaddr*) &addrm, sizeof(addrm)) < 0)
     {
         D_NWSTACK("error can't bind multicast socket in UDPPort::open\n");
+        close();
         return -1;
     }
 
@@ -360,8 +365,6 @@ int UDPPort::open(const char *multicastIP, uint16_t multiPortNo, uint16_t uniPor
     }
 
     _multicastAddr.setAddress(inet_addr(multicastIP), htons(multiPortNo));
-    _pollFds[1].fd = sock;
-    _pollFds[1].events = POLLIN;
 
     return 0;
 }
diff --git a/MQTTSNGateway/src/linux/udp6/SensorNetwork.cpp b/MQTTSNGateway/src/linux/udp6/SensorNetwork.cpp
index 9364686..213c1c4 100644
--- a/MQTTSNGateway/src/linux/udp6/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/udp6/SensorNetwork.cpp
@@ -231,6 +231,7 @@ UDPPort6::UDPPort6()
 {
     _disconReq = false;
     _hops = 0;
+    memset(_pollfds, 0, sizeof(_pollfds));
 }
 
 UDPPort6::~UDPPort6()
-- 
2.43.0


From 3a4774fc00b7de8fa693215205d091ff4640f073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:31 +0000
Subject: [PATCH 081/138] fix: a UDP6 network which could not join its
 multicast group was taken for open

---
 MQTTSNGateway/src/linux/udp6/SensorNetwork.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/linux/udp6/SensorNetwork.cpp b/MQTTSNGateway/src/linux/udp6/SensorNetwork.cpp
index 213c1c4..d258dbb 100644
--- a/MQTTSNGateway/src/linux/udp6/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/udp6/SensorNetwork.cpp
@@ -365,7 +365,7 @@ int UDPPort6::open(uint16_t uniPortNo, uint16_t multiPortNo, const char *multica
     {
         D_NWSTACK("\033[0m\033[0;31m error %d IPV6_JOIN_GROUP in Udp6Port::open\033[0m\033[0;37m\n", errno);
         close();
-        return false;
+        return -1;
     }
 
 #ifdef DEBUG_NW
@@ -378,7 +378,7 @@ int UDPPort6::open(uint16_t uniPortNo, uint16_t multiPortNo, const char *multica
     {
         D_NWSTACK("\033[0m\033[0;31m error %s IPV6_MULTICAST_LOOP\033[0m\033[0;37m\n", strerror(errno));
         close();
-        return false;
+        return -1;
     }
     if (setsockopt(sock, IPPROTO_IPV6, IPV6_MULTICAST_HOPS, &hops, sizeof(hops)) < 0)
     {
-- 
2.43.0


From f7bbd7673fec98ce7d70a09fa4fe08ee50853933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:31 +0000
Subject: [PATCH 082/138] fix: MulticastTTL was set on a socket nothing is sent
 from

---
 MQTTSNGateway/src/linux/udp/SensorNetwork.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/linux/udp/SensorNetwork.cpp b/MQTTSNGateway/src/linux/udp/SensorNetwork.cpp
index 24d1713..7847282 100644
--- a/MQTTSNGateway/src/linux/udp/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/udp/SensorNetwork.cpp
@@ -344,7 +344,8 @@ int UDPPort::open(const char *multicastIP, uint16_t multiPortNo, uint16_t uniPor
         return -1;
     }
 
-    if (setsockopt(sock, IPPROTO_IP, IP_MULTICAST_TTL, &ttl, sizeof(ttl)) < 0)
+    /* broadcasts are sent from the unicast socket */
+    if (setsockopt(_pollFds[0].fd, IPPROTO_IP, IP_MULTICAST_TTL, &ttl, sizeof(ttl)) < 0)
     {
         D_NWSTACK("error Multicast IP_MULTICAST_TTL in UDPPort::open\n");
         close();
-- 
2.43.0


From 7deff725566f6167037ccb275ab30a58ebfcae1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:13 +0000
Subject: [PATCH 083/138] fix: a client which connects from the address of
 another one was taken for it

---
 MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp | 45 +++++++++++++++++++-
 MQTTSNGateway/src/MQTTSNGWClientRecvTask.h   |  1 +
 2 files changed, 45 insertions(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp b/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
index 364a05c..8802ecc 100644
--- a/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
@@ -61,6 +61,7 @@ void ClientRecvTask::run()
     while (true)
     {
         Client* client = nullptr;
+        Client* former = nullptr;
         Forwarder* fwd = nullptr;
         WirelessNodeId nodeId;
 
@@ -160,6 +161,13 @@ void ClientRecvTask::run()
             }
         }
 
+        if (client != nullptr && packet->getType() == MQTTSN_CONNECT && !isClientOf(client, packet))
+        {
+            /* another client is at the place of this one now */
+            former = client;
+            client = nullptr;
+        }
+
         if (client != nullptr)
         {
             log(client, packet, 0);
@@ -227,6 +235,11 @@ void ClientRecvTask::run()
                     }
                     if (client != nullptr)
                     {
+                        if (former != nullptr)
+                        {
+                            fwd->eraseClient(former);
+                            former->setForwarder(nullptr);
+                        }
                         if (_gateway->getGWParams()->clientAuthentication == false)
                         {
                             /* the client leaves its former address */
@@ -251,13 +264,25 @@ void ClientRecvTask::run()
                         /* Authentication is not required */
                         if (_gateway->getGWParams()->clientAuthentication == false)
                         {
+                            if (former != nullptr)
+                            {
+                                SensorNetAddress noAddr;
+                                former->setClientAddress(&noAddr);
+                            }
                             client->setClientAddress(&senderAddr);
                         }
                     }
                     else if (!clientList->isAuthorized())
                     {
                         /* create a new client */
-                        client = clientList->createClient(&senderAddr, &data.clientID, clientType);
+                        client = clientList->createClient(former ? nullptr : &senderAddr, &data.clientID, clientType);
+
+                        if (client != nullptr && former != nullptr)
+                        {
+                            SensorNetAddress noAddr;
+                            former->setClientAddress(&noAddr);
+                            client->setClientAddress(&senderAddr);
+                        }
                     }
                 }
 
@@ -299,6 +324,24 @@ void ClientRecvTask::run()
     }
 }
 
+/*
+ * Is the client that of the client id in the CONNECT ?
+ */
+bool ClientRecvTask::isClientOf(Client* client, MQTTSNPacket* packet)
+{
+    MQTTSNPacket_connectData data;
+    memset(&data, 0, sizeof(MQTTSNPacket_connectData));
+
+    if (!packet->getCONNECT(&data))
+    {
+        return true;
+    }
+    const char* id = data.clientID.cstring ? data.clientID.cstring : data.clientID.lenstring.data;
+    size_t len = id ? strnlen(id, MQTTSNstrlen(data.clientID)) : 0;
+
+    return strlen(client->getClientId()) == len && (len == 0 || memcmp(client->getClientId(), id, len) == 0);
+}
+
 void ClientRecvTask::log(Client* client, MQTTSNPacket* packet, MQTTSNString* id)
 {
     const char* clientId;
diff --git a/MQTTSNGateway/src/MQTTSNGWClientRecvTask.h b/MQTTSNGateway/src/MQTTSNGWClientRecvTask.h
index 9428d3a..75cdc83 100644
--- a/MQTTSNGateway/src/MQTTSNGWClientRecvTask.h
+++ b/MQTTSNGateway/src/MQTTSNGWClientRecvTask.h
@@ -39,6 +39,7 @@ public:
 private:
     void log(Client*, MQTTSNPacket*, MQTTSNString* id);
     void log(const char* clientId, MQTTSNPacket* packet);
+    bool isClientOf(Client* client, MQTTSNPacket* packet);
 
     Gateway* _gateway;
     SensorNetwork* _sensorNetwork;
-- 
2.43.0


From 2c40137353531b2e23e0a9f742167c3705258083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:56 +0000
Subject: [PATCH 084/138] fix: XBee: a frame longer than the buffer overflowed
 it, and its length lost its high byte

---
 .../src/linux/xbee/SensorNetwork.cpp          | 19 +++++++++++++------
 MQTTSNGateway/src/linux/xbee/SensorNetwork.h  |  5 ++++-
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp b/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp
index 4be4eae..8a0e63c 100644
--- a/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp
@@ -223,13 +223,13 @@ int XBee:: unicast(const uint8_t* payload, uint16_t payloadLen, SensorNetAddress
 
 int XBee::recv(uint8_t* buf, uint16_t bufLen, SensorNetAddress* clientAddr)
 {
-	uint8_t data[128];
+	uint8_t data[XBEE_MAX_FRAME];
 	int len;
 
 	while ( true )
 	{
 
-		if ( (len = readApiFrame(data)) > 0 )
+		if ( (len = readApiFrame(data, sizeof(data))) > 0 )
 		{
 
 			if ( data[0] == API_RESPONSE )
@@ -254,11 +254,11 @@ int XBee::recv(uint8_t* buf, uint16_t bufLen, SensorNetAddress* clientAddr)
 	}
 }
 
-int XBee::readApiFrame(uint8_t* recvData){
+int XBee::readApiFrame(uint8_t* recvData, uint16_t maxLen){
 	uint8_t buf;
-	uint8_t pos = 0;
+	uint16_t pos = 0;
 	uint8_t checksum = 0;
-	uint8_t len = 0;
+	uint16_t len = 0;
 
 	 while ( _serialPort->recv(&buf) )
 	 {
@@ -279,6 +279,7 @@ int XBee::readApiFrame(uint8_t* recvData){
     {
     	goto errexit;
     }
+    len = (uint16_t)(buf << 8);
 
     if ( recv(&buf) < 0 ) // LSB length
 	{
@@ -286,9 +287,15 @@ int XBee::readApiFrame(uint8_t* recvData){
 	}
 	else
 	{
-		len = buf;
+		len += buf;
 	}
 
+    if ( len > maxLen )
+    {
+    	D_NWSTACK("    frame of %d bytes is too long\r\n", len);
+    	goto errexit;
+    }
+
     pos = 0;
     while ( len-- )
     {
diff --git a/MQTTSNGateway/src/linux/xbee/SensorNetwork.h b/MQTTSNGateway/src/linux/xbee/SensorNetwork.h
index c21ce91..1cfadd6 100644
--- a/MQTTSNGateway/src/linux/xbee/SensorNetwork.h
+++ b/MQTTSNGateway/src/linux/xbee/SensorNetwork.h
@@ -33,6 +33,9 @@ namespace MQTTSNGW
 
 #define XMIT_STATUS_TIME_OVER    5000
 
+#define XBEE_RESPONSE_HEADER     12      // frame type, address64, address16, options
+#define XBEE_MAX_FRAME           (MQTTSNGW_MAX_PACKET_SIZE + XBEE_RESPONSE_HEADER)
+
 #define START_BYTE               0x7e
 #define ESCAPE                   0x7d
 #define XON                      0x11
@@ -92,7 +95,7 @@ public:
 	void setApiMode(uint8_t mode);
 
 private:
-	int readApiFrame(uint8_t* recvData);
+	int readApiFrame(uint8_t* recvData, uint16_t maxLen);
 	int recv(uint8_t* buf);
 	int send(const uint8_t* payload, uint8_t pLen, SensorNetAddress* addr);
 	void send(uint8_t b);
-- 
2.43.0


From 8e6b1f20182d81301ef3b680d6f210f6ff524ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:59 +0000
Subject: [PATCH 085/138] fix: XBee: a received frame which is too short or too
 long for the packet buffer was copied

---
 MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp b/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp
index 8a0e63c..46d37d4 100644
--- a/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp
@@ -234,13 +234,17 @@ int XBee::recv(uint8_t* buf, uint16_t bufLen, SensorNetAddress* clientAddr)
 
 			if ( data[0] == API_RESPONSE )
 			{
+				len -= XBEE_RESPONSE_HEADER;
+				if ( len < 0 || len > bufLen )
+				{
+					return 0;
+				}
 				memcpy(clientAddr->_address64, data + 1, 8);
 				memcpy(clientAddr->_address16, data + 9, 2);
-				len -= 12;
-				memcpy( buf, data + 12, len);
+				memcpy( buf, data + XBEE_RESPONSE_HEADER, len);
 				return len;
 			}
-			else if ( data[0] == API_XMITSTATUS )
+			else if ( data[0] == API_XMITSTATUS && len > 5 )
 			{
 				_respCd = data[5];
 				_respId = data[1];
-- 
2.43.0


From 89355e5049476fab7a7493e35efed68cf13a05b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:02 +0000
Subject: [PATCH 086/138] fix: XBee: a frame which ended before its checksum or
 behind an escape was taken for complete

---
 MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp b/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp
index 46d37d4..1fd71d2 100644
--- a/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp
@@ -311,7 +311,10 @@ int XBee::readApiFrame(uint8_t* recvData, uint16_t maxLen){
     	checksum += buf;
     }
 
-    recv(&buf);        // checksum
+    if ( recv(&buf) < 0 )        // checksum
+    {
+    	goto errexit;
+    }
     if ( (0xff - checksum ) == buf ){
     	D_NWSTACK("    checksum ok\r\n");
     	return pos;
@@ -401,7 +404,10 @@ int XBee::recv(uint8_t* buf)
 	{
 		if ( *buf == ESCAPE && _apiMode == 2 )
 		{
-			_serialPort->recv(buf);
+			if ( !_serialPort->recv(buf) )
+			{
+				return -1;
+			}
 			*buf = 0x20 ^ *buf;
 		}
 		return 0;
-- 
2.43.0


From 8f95528acb50eea6c2b455285e97413ef636343d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:06 +0000
Subject: [PATCH 087/138] fix: XBee: a packet of more than 241 bytes was sent
 with a wrong length or cut off

---
 MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp | 13 +++++++------
 MQTTSNGateway/src/linux/xbee/SensorNetwork.h   |  2 +-
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp b/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp
index 1fd71d2..e9d88fe 100644
--- a/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp
@@ -214,11 +214,11 @@ int XBee::open(char* device, int baudrate)
 int XBee::broadcast(const uint8_t* payload, uint16_t payloadLen){
 	SensorNetAddress addr;
 	addr.setBroadcastAddress();
-	return send(payload, (uint8_t) payloadLen, &addr);
+	return send(payload, payloadLen, &addr);
 }
 
 int XBee:: unicast(const uint8_t* payload, uint16_t payloadLen, SensorNetAddress* addr){
-	return send(payload, (uint8_t) payloadLen, addr);
+	return send(payload, payloadLen, addr);
 }
 
 int XBee::recv(uint8_t* buf, uint16_t bufLen, SensorNetAddress* clientAddr)
@@ -329,14 +329,15 @@ errexit:
 	return -1;
 }
 
-int XBee::send(const uint8_t* payload, uint8_t pLen, SensorNetAddress* addr){
+int XBee::send(const uint8_t* payload, uint16_t pLen, SensorNetAddress* addr){
 	D_NWSTACK("\r\n===> Send:    ");
     uint8_t checksum = 0;
+    uint16_t frameLen = 14 + pLen;
     _respCd = -1;
 
     _serialPort->send(START_BYTE);
-    send(0x00);              // Message Length
-    send(14 + pLen);         // Message Length
+    send(frameLen >> 8);     // Message Length
+    send(frameLen & 0xff);   // Message Length
 
     _serialPort->send(API_XMITREQUEST); // Transmit Request API
     checksum += API_XMITREQUEST;
@@ -367,7 +368,7 @@ int XBee::send(const uint8_t* payload, uint8_t pLen, SensorNetAddress* addr){
 
     D_NWSTACK("\r\n     Payload: ");
 
-    for ( uint8_t i = 0; i < pLen; i++ ){
+    for ( uint16_t i = 0; i < pLen; i++ ){
         send(payload[i]);     // Payload
         checksum += payload[i];
     }
diff --git a/MQTTSNGateway/src/linux/xbee/SensorNetwork.h b/MQTTSNGateway/src/linux/xbee/SensorNetwork.h
index 1cfadd6..c44d7e6 100644
--- a/MQTTSNGateway/src/linux/xbee/SensorNetwork.h
+++ b/MQTTSNGateway/src/linux/xbee/SensorNetwork.h
@@ -97,7 +97,7 @@ public:
 private:
 	int readApiFrame(uint8_t* recvData, uint16_t maxLen);
 	int recv(uint8_t* buf);
-	int send(const uint8_t* payload, uint8_t pLen, SensorNetAddress* addr);
+	int send(const uint8_t* payload, uint16_t pLen, SensorNetAddress* addr);
 	void send(uint8_t b);
 
 	Semaphore _sem;
-- 
2.43.0


From 3d061ea9a2194a5190f56755a0aa7a9504df55c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:09 +0000
Subject: [PATCH 088/138] fix: XBee: one packet in 256 was sent without asking
 for its status, and taken for lost

---
 MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp b/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp
index e9d88fe..92b62ea 100644
--- a/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp
@@ -342,7 +342,7 @@ int XBee::send(const uint8_t* payload, uint16_t pLen, SensorNetAddress* addr){
     _serialPort->send(API_XMITREQUEST); // Transmit Request API
     checksum += API_XMITREQUEST;
 
-    if (_frameId++ == 0x00 ) // Frame ID
+    if (++_frameId == 0x00 ) // Frame ID
 	{
     	_frameId = 1;
 	}
-- 
2.43.0


From 0e333afe067e403f368221d228138cb786d56b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:30 +0000
Subject: [PATCH 089/138] fix: XBee: the address of a listed client was not
 read as the hexadecimal number it is

---
 .../src/linux/xbee/SensorNetwork.cpp          | 28 +++++++++++++++++--
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp b/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp
index 92b62ea..dbc375d 100644
--- a/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/xbee/SensorNetwork.cpp
@@ -51,10 +51,29 @@ void SensorNetAddress::setAddress(uint8_t* address64, uint8_t* address16)
 }
 
 
+/**
+ *  Set Address data to SensorNetAddress
+ *
+ *  @param  *address64 is 16 hexadecimal digits
+ *  @return success = 0,  Invalid format = -1
+ *
+ *  The 16-bit network address is not known (0xFFFE).
+ */
 int SensorNetAddress::setAddress(string* address64)
 {
-	memcpy(_address64, address64->c_str(), 8);
-	memset(_address16, 0, sizeof(_address16));
+	_address16[0] = 0xff;
+	_address16[1] = 0xfe;
+
+	if ( address64->length() != 16 || address64->find_first_not_of("0123456789abcdefABCDEF") != string::npos )
+	{
+		memset(_address64, 0, sizeof(_address64));
+		return -1;
+	}
+
+	for ( int i = 0; i < 8; i++ )
+	{
+		_address64[i] = (uint8_t)strtoul(address64->substr(i * 2, 2).c_str(), 0, 16);
+	}
 	return 0;
 }
 
@@ -69,8 +88,11 @@ void SensorNetAddress::setBroadcastAddress(void)
 
 bool SensorNetAddress::isMatch(SensorNetAddress* addr)
 {
+	const uint8_t unknown[2] = { 0xff, 0xfe };
 
-	return (memcmp(this->_address64, addr->_address64, 8 ) == 0 &&  memcmp(this->_address16, addr->_address16, 2) == 0);
+	return memcmp(this->_address64, addr->_address64, 8) == 0
+			&& (memcmp(this->_address16, addr->_address16, 2) == 0
+				|| memcmp(this->_address16, unknown, 2) == 0 || memcmp(addr->_address16, unknown, 2) == 0);
 }
 
 SensorNetAddress& SensorNetAddress::operator =(SensorNetAddress& addr)
-- 
2.43.0


From 4375da0a89bb26efbfb3234ae028b9602eaffbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:53 +0000
Subject: [PATCH 090/138] fix: LoRaLink: the reader of frames started with an
 undefined state, and kept an escape of an interrupted frame

---
 MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp b/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp
index 9d755db..6d4c533 100644
--- a/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp
@@ -170,6 +170,8 @@ LoRaLink::LoRaLink(){
     _serialPortRx = new SerialPort();
     _serialPortTx = new SerialPort();
     _respCd = 0;
+    memset(&_loRaLinkApi, 0, sizeof(_loRaLinkApi));
+    memset(&_loRaLinkPara, 0, sizeof(_loRaLinkPara));
 }
 
 LoRaLink::~LoRaLink(){
@@ -290,6 +292,7 @@ bool LoRaLink::readApiFrame(LoRaLinkFrame_t* api, LoRaLinkReadParameters_t* para
 			para->apipos= 1;
 			para->Error = true;
 			para->Available = false;
+			para->Escape = false;
 			continue;
 		}
 
-- 
2.43.0


From 171bcac443d692a7f45701d83c124f389f29043b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:57 +0000
Subject: [PATCH 091/138] fix: LoRaLink: a frame with a wrong length overflowed
 the buffer, or was taken for one of 65535 bytes

---
 MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp | 7 ++++++-
 MQTTSNGateway/src/linux/loralink/SensorNetwork.h   | 1 +
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp b/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp
index 6d4c533..c2bed2a 100644
--- a/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp
@@ -327,6 +327,11 @@ bool LoRaLink::readApiFrame(LoRaLinkFrame_t* api, LoRaLinkReadParameters_t* para
 
 		case 2:
 			api->PayloadLen += byte;
+			if ( api->PayloadLen < LORALINK_HEADER || api->PayloadLen > LORALINK_HEADER + LORA_PHY_MAXPAYLOAD )
+			{
+				para->apipos = 0;    // not a frame, wait for the next one
+				continue;
+			}
 			break;
 
 		case 3:
@@ -366,7 +371,7 @@ bool LoRaLink::readApiFrame(LoRaLinkFrame_t* api, LoRaLinkReadParameters_t* para
 			{
 				para->Error = ( (0xff - para->checksum) != byte );
 				para->Available = true;
-				api->PayloadLen -= 7;   // 7 = SrcAddr[1] + Rssi[2] + Snr[2] + PlType[1] + Crc[1]
+				api->PayloadLen -= LORALINK_HEADER;
 				para->apipos = 0;
 				para->checksum = 0;
 				return true;
diff --git a/MQTTSNGateway/src/linux/loralink/SensorNetwork.h b/MQTTSNGateway/src/linux/loralink/SensorNetwork.h
index 212dc46..55f4b84 100644
--- a/MQTTSNGateway/src/linux/loralink/SensorNetwork.h
+++ b/MQTTSNGateway/src/linux/loralink/SensorNetwork.h
@@ -44,6 +44,7 @@ namespace MQTTSNGW
 #define BROADCAST_DEVADDR        0xFF
 
 #define LORA_PHY_MAXPAYLOAD      256
+#define LORALINK_HEADER          7       // SrcAddr[1] + Rssi[2] + Snr[2] + PlType[1] + Crc[1]
 
 /*!
  * LoRaLink Modem Type
-- 
2.43.0


From b9b3c09374cc2e308905b32668104f4f77395e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:59 +0000
Subject: [PATCH 092/138] fix: LoRaLink: a response of the modem was taken for
 a packet, and a packet longer than the buffer overflowed it

---
 .../src/linux/loralink/SensorNetwork.cpp        | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp b/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp
index c2bed2a..7185de4 100644
--- a/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp
@@ -239,12 +239,6 @@ int LoRaLink::recv(uint8_t* buf, uint16_t bufLen, SensorNetAddress* clientAddr)
 	{
 		if ( ( readApiFrame( &_loRaLinkApi, &_loRaLinkPara) == true ) && (_loRaLinkPara.Available == true) && ( _loRaLinkPara.Error == false ) )
 		{
-			clientAddr->_devAddr = _loRaLinkApi.SourceAddr;
-
-			bufLen = _loRaLinkApi.PayloadLen;
-
-			memcpy( buf, _loRaLinkApi.Payload, bufLen );
-
 			switch ( (int) _loRaLinkApi.PayloadType )
 			{
 			case API_RSP_ACK:
@@ -261,14 +255,19 @@ int LoRaLink::recv(uint8_t* buf, uint16_t bufLen, SensorNetAddress* clientAddr)
 
 
 			case MQTT_SN:
-				memcpy( buf, _loRaLinkApi.Payload, bufLen );
-				return bufLen;
+				if ( _loRaLinkApi.PayloadLen > bufLen )
+				{
+					return 0;
+				}
+				clientAddr->_devAddr = _loRaLinkApi.SourceAddr;
+				memcpy( buf, _loRaLinkApi.Payload, _loRaLinkApi.PayloadLen );
+				return _loRaLinkApi.PayloadLen;
 
 			default:
 				return 0;
 			}
 			_sem.post();
-			return bufLen;
+			return 0;
 
 		}
 		else
-- 
2.43.0


From 4468ef89fc99875aacb7a09b2d233a94846eb0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:02 +0000
Subject: [PATCH 093/138] fix: LoRaLink: a packet of more than 255 bytes was
 cut off

---
 MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp b/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp
index 7185de4..dabca87 100644
--- a/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp
@@ -226,11 +226,11 @@ int LoRaLink::open(LoRaLinkModemType_t type, char* device, int baudrate)
 int LoRaLink::broadcast(const uint8_t* payload, uint16_t payloadLen){
 	SensorNetAddress addr;
 	addr.setBroadcastAddress();
-	return send(MQTT_SN, payload, (uint8_t) payloadLen, &addr);
+	return send(MQTT_SN, payload, payloadLen, &addr);
 }
 
 int LoRaLink:: unicast(const uint8_t* payload, uint16_t payloadLen, SensorNetAddress* addr){
-	return send(MQTT_SN, payload, (uint8_t) payloadLen, addr);
+	return send(MQTT_SN, payload, payloadLen, addr);
 }
 
 int LoRaLink::recv(uint8_t* buf, uint16_t bufLen, SensorNetAddress* clientAddr)
@@ -413,7 +413,7 @@ int LoRaLink::send(LoRaLinkPayloadType_t type, const uint8_t* payload, uint16_t
 
     D_LRSTACK("\r\n     Payload: ");
 
-    for ( uint8_t i = 0; i < pLen; i++ ){
+    for ( uint16_t i = 0; i < pLen; i++ ){
         send(payload[i]);     // Payload
         chks += payload[i];
     }
-- 
2.43.0


From 4b8b43bcc6eecb40a7929f635f385678de0820e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:04 +0000
Subject: [PATCH 094/138] fix: LoRaLink: an address outside 1 to 254 was taken
 for another one

---
 MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp b/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp
index dabca87..8eda789 100644
--- a/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/loralink/SensorNetwork.cpp
@@ -60,12 +60,14 @@ void SensorNetAddress::setAddress( uint8_t devAddr)
 
 int SensorNetAddress::setAddress(string* address)
 {
-	_devAddr = atoi(address->c_str());
+	int devAddr = atoi(address->c_str());
 
-	if ( _devAddr == 0 )
+	_devAddr = 0;
+	if ( devAddr < 1 || devAddr >= BROADCAST_DEVADDR )
 	{
 		return -1;
 	}
+	_devAddr = (uint8_t)devAddr;
 	return 0;
 }
 
-- 
2.43.0


From 685124a8161c6025a37ad987c68aebe7b8febe4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:03 +0000
Subject: [PATCH 095/138] fix: RFCOMM: packets of all devices were taken for
 those of the device connected last, and lost when several were ready

---
 MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp | 8 +++++++-
 MQTTSNGateway/src/linux/rfcomm/SensorNetwork.h   | 1 +
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp b/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp
index e8d6bcd..d572782 100644
--- a/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp
@@ -227,6 +227,12 @@ int SensorNetwork::read(uint8_t* buf, uint16_t bufLen)
                 if (FD_ISSET(_rfPorts[i]._rfCommSock, &recvfds))
                 {
                     rc = _rfPorts[i].recv(buf, bufLen);
+                    if (rc > 0)
+                    {
+                        /* what is ready on the other channels is read next time */
+                        _senderAddr = _rfPorts[i]._peerAddr;
+                        return rc;
+                    }
                     if (rc == -1)
                     {
                         _rfPorts[i].close();
@@ -237,7 +243,7 @@ int SensorNetwork::read(uint8_t* buf, uint16_t bufLen)
             {
                 if (FD_ISSET(_rfPorts[i]._listenSock, &recvfds))
                 {
-                    int sock = _rfPorts[i].accept(&_senderAddr);
+                    int sock = _rfPorts[i].accept(&_rfPorts[i]._peerAddr);
                     if (sock > 0)
                     {
                         _rfPorts[i]._rfCommSock = sock;
diff --git a/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.h b/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.h
index 2aef9f8..1a22063 100644
--- a/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.h
+++ b/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.h
@@ -68,6 +68,7 @@ private:
 	int _rfCommSock;
     int _listenSock;
     uint16_t _channel;
+    SensorNetAddress _peerAddr;   // the device connected
 	bool _disconReq;
 };
 
-- 
2.43.0


From 85d7b961aceb85c5d2588abb6f9bbe78fb15f7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:05 +0000
Subject: [PATCH 096/138] fix: RFCOMM: a connection closed by the device was
 never closed, and its channel never free again

---
 MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp b/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp
index d572782..a807087 100644
--- a/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp
@@ -395,12 +395,13 @@ int RfcommPort::recv(uint8_t* buf, uint16_t len)
     errno = 0;
 
     rc = ::read(_rfCommSock, buf, len);
-    if (rc < 0 && errno != EAGAIN)
+    if (rc == 0 || (rc < 0 && errno != EAGAIN))
     {
+        /* the device has closed the connection, or it failed */
         D_NWSTACK("errno = %d in BlePort::recv\n", errno);
         return -1;
     }
-    return rc;
+    return rc < 0 ? 0 : rc;
 }
 
 int RfcommPort::accept(SensorNetAddress* addr)
-- 
2.43.0


From 3097d257335d1a38bbc463171e625b2f3a6aab60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:07 +0000
Subject: [PATCH 097/138] fix: RFCOMM: a packet was sent to another device on
 the same channel, or to a channel which does not exist

---
 MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp b/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp
index a807087..ca91826 100644
--- a/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp
@@ -158,10 +158,21 @@ SensorNetwork::~SensorNetwork()
 int SensorNetwork::unicast(const uint8_t* payload, uint16_t payloadLength, SensorNetAddress* sendToAddr)
 {
     uint16_t ch = sendToAddr->getPortNo();
-    RfcommPort* blep = &_rfPorts[ch - 1];
     int rc = 0;
     errno = 0;
 
+    if (ch < 1 || ch > MAX_RFCOMM_CH)
+    {
+        return -1;
+    }
+
+    RfcommPort* blep = &_rfPorts[ch - 1];
+    if (blep->getSock() <= 0 || !blep->_peerAddr.isMatch(sendToAddr))
+    {
+        /* the device is not connected any longer */
+        return -1;
+    }
+
     if ((rc = blep->send(payload, (uint32_t) payloadLength)) < 0)
     {
         D_NWSTACK("errno == %d in BlePort::sendto %d\n", errno, ch);
-- 
2.43.0


From 22c988c38f5800deb6d2ea1e75ce1a92b0190aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:10 +0000
Subject: [PATCH 098/138] fix: RFCOMM: a channel outside 1 to 30 was taken for
 another one

---
 MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp b/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp
index ca91826..dec1849 100644
--- a/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp
@@ -104,11 +104,17 @@ int SensorNetAddress::setAddress(string* dev_channel)
     }
     else
     {
-        _channel = atoi(strchannel.c_str());
+        int channel = atoi(strchannel.c_str());
+        if (channel < 1 || channel > MAX_RFCOMM_CH)
+        {
+            _channel = 0;
+            memset(&_bdAddr, 0, sizeof(bdaddr_t));
+            return rc;
+        }
+        _channel = channel;
     }
-    str2ba(dvAddr.c_str(), &_bdAddr);
 
-    if ((_channel < 0 && _channel > 30) || bacmp(&_bdAddr, &NullAddr) == 0)
+    if (str2ba(dvAddr.c_str(), &_bdAddr) < 0 || bacmp(&_bdAddr, &NullAddr) == 0)
     {
         return rc;
     }
-- 
2.43.0


From aa401c115efa89dc78b43df0e96cc90c018c3aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:12 +0000
Subject: [PATCH 099/138] fix: RFCOMM: without any channel the network was
 taken for open, and a closed socket was used for a channel

---
 MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp b/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp
index dec1849..29b3172 100644
--- a/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp
@@ -308,7 +308,7 @@ void SensorNetwork::initialize(void)
 
     /*  Prepare BLE sockets */
     WRITELOG("Initialize RFCOMM\n");
-    int rc = MAX_RFCOMM_CH;
+    int rc = 0;
     for (uint16_t i = 0; i < MAX_RFCOMM_CH; i++)
     {
 
@@ -393,10 +393,17 @@ int RfcommPort::open(bdaddr_t* devAddr, uint16_t channel)
     {
         WRITELOG("\033[0m\033[0;31mCan't bind RFCOMM CH = %d  %s\033[0m\033[0;37m\n", channel, strerror(errno));
         ::close(_listenSock);
+        _listenSock = 0;
         return 0;
     }
     _channel = channel;
-    ::listen(_listenSock, 1);
+    if (::listen(_listenSock, 1) < 0)
+    {
+        D_NWSTACK("error can't listen in BlePort::open\n");
+        ::close(_listenSock);
+        _listenSock = 0;
+        return 0;
+    }
     WRITELOG("Listen RFCOMM CH = %d\n", channel);
     return 1;
 }
-- 
2.43.0


From 812ab7f9cd6752e094a04d33e714390f01e7b4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:15 +0000
Subject: [PATCH 100/138] fix: RFCOMM: a device which closed its connection
 ended the gateway by SIGPIPE

---
 MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp b/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp
index 29b3172..b91de34 100644
--- a/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp
@@ -410,7 +410,7 @@ int RfcommPort::open(bdaddr_t* devAddr, uint16_t channel)
 
 int RfcommPort::send(const uint8_t* buf, uint32_t length)
 {
-    return ::send(_rfCommSock, buf, length, 0);
+    return ::send(_rfCommSock, buf, length, MSG_NOSIGNAL);
 }
 
 int RfcommPort::recv(uint8_t* buf, uint16_t len)
-- 
2.43.0


From 23ae0839b7fa23314780b7b339c5e2f2cdeaebc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:25 +0000
Subject: [PATCH 101/138] fix: RFCOMM: channel 0 stands for all channels, as *
 does

---
 MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp b/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp
index b91de34..1fe29d1 100644
--- a/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/rfcomm/SensorNetwork.cpp
@@ -105,7 +105,7 @@ int SensorNetAddress::setAddress(string* dev_channel)
     else
     {
         int channel = atoi(strchannel.c_str());
-        if (channel < 1 || channel > MAX_RFCOMM_CH)
+        if (channel < 0 || channel > MAX_RFCOMM_CH)
         {
             _channel = 0;
             memset(&_bdAddr, 0, sizeof(bdaddr_t));
-- 
2.43.0


From 61108de755754bfea69df23cc6b00bb352ea6150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:30 +0000
Subject: [PATCH 102/138] fix: a broker connection lost while the gateway
 writes to it does not end the gateway by SIGPIPE

---
 MQTTSNGateway/src/MQTTSNGWProcess.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MQTTSNGateway/src/MQTTSNGWProcess.cpp b/MQTTSNGateway/src/MQTTSNGWProcess.cpp
index bc9898e..606b893 100644
--- a/MQTTSNGateway/src/MQTTSNGWProcess.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWProcess.cpp
@@ -86,6 +86,7 @@ void Process::initialize(int argc, char** argv)
     signal(SIGINT, signalHandler);
     signal(SIGTERM, signalHandler);
     signal(SIGHUP, signalHandler);
+    signal(SIGPIPE, SIG_IGN);
 
     int opt;
     while ((opt = getopt(_argc, _argv, "f:")) != -1)
-- 
2.43.0


From 30fd36e1706e0e33a12d4c2c69c59906361acb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:30 +0000
Subject: [PATCH 103/138] fix: stop the gateway on SIGTERM, and do not forget a
 SIGINT when another signal follows

---
 MQTTSNGateway/src/MQTTSNGWProcess.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWProcess.cpp b/MQTTSNGateway/src/MQTTSNGWProcess.cpp
index 606b893..7cda8ca 100644
--- a/MQTTSNGateway/src/MQTTSNGWProcess.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWProcess.cpp
@@ -44,7 +44,10 @@ volatile int theSignaled = 0;
 
 static void signalHandler(int sig)
 {
-    theSignaled = sig;
+    if (sig == SIGINT || sig == SIGTERM)
+    {
+        theSignaled = SIGINT;
+    }
 }
 
 /*=====================================
-- 
2.43.0


From 5a72868accdab22b77de313552da4efffc17912a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:30 +0000
Subject: [PATCH 104/138] fix: strings of 16 to 31 bytes in a payload are read
 back

---
 MQTTSNGateway/GatewayTester/src/Payload.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MQTTSNGateway/GatewayTester/src/Payload.cpp b/MQTTSNGateway/GatewayTester/src/Payload.cpp
index 836729a..b0fe3c0 100644
--- a/MQTTSNGateway/GatewayTester/src/Payload.cpp
+++ b/MQTTSNGateway/GatewayTester/src/Payload.cpp
@@ -274,8 +274,8 @@ const char* Payload::get_str(uint8_t index, uint16_t* len){
 		}else if(*val == MSGPACK_STR8){
 			*len = *(val + 1);
 			return (const char*)(val + 2);
-		}else if( (*val & 0xf0) == MSGPACK_FIXSTR ){
-			*len = *val & 0x0f;
+		}else if( (*val & 0xe0) == MSGPACK_FIXSTR ){
+			*len = *val & 0x1f;
 			return (const char*)(val + 1);
 		}
 	}
@@ -321,8 +321,8 @@ uint8_t* Payload::getBufferPos(uint8_t index){
 				((*pos & 0xf0) == MSGPACK_NEGINT) ||
 				((*pos & 0xf0) == MSGPACK_ARRAY15)) {
 				pos++;
-			}else if((*pos & 0xf0) == MSGPACK_FIXSTR){
-				pos += (*pos & 0x0f) + 1;
+			}else if((*pos & 0xe0) == MSGPACK_FIXSTR){
+				pos += (*pos & 0x1f) + 1;
 			}
 		}
 		/*
-- 
2.43.0


From 849e4eecc86117309fa3e41b634cb4c0e96555e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:30 +0000
Subject: [PATCH 105/138] fix: negative numbers in a payload are read back as
 they were set, without changing the payload

---
 MQTTSNGateway/GatewayTester/src/Payload.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/MQTTSNGateway/GatewayTester/src/Payload.cpp b/MQTTSNGateway/GatewayTester/src/Payload.cpp
index b0fe3c0..0feb74c 100644
--- a/MQTTSNGateway/GatewayTester/src/Payload.cpp
+++ b/MQTTSNGateway/GatewayTester/src/Payload.cpp
@@ -244,10 +244,9 @@ int32_t Payload::get_int32(uint8_t index){
 				rc = (int32_t)d16;
 			}
 		}else if(*val == MSGPACK_INT8){
-			rc = (int32_t)*(val + 1);
+			rc = (int8_t)*(val + 1);
 		}else if((*val & MSGPACK_NEGINT) == MSGPACK_NEGINT){
-			*val &= ~MSGPACK_NEGINT;
-			rc = ((int32_t)*val) * -1;
+			rc = (int8_t)*val;
 		}else{
 			rc = (int32_t) *val;
 		}
@@ -318,7 +317,7 @@ uint8_t* Payload::getBufferPos(uint8_t index){
 			break;
 		default:
 			if((*pos < MSGPACK_POSINT) ||
-				((*pos & 0xf0) == MSGPACK_NEGINT) ||
+				((*pos & MSGPACK_NEGINT) == MSGPACK_NEGINT) ||
 				((*pos & 0xf0) == MSGPACK_ARRAY15)) {
 				pos++;
 			}else if((*pos & 0xe0) == MSGPACK_FIXSTR){
-- 
2.43.0


From 408e18ec813afad3ceb82aea3c8faf89a1f573d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:30 +0000
Subject: [PATCH 106/138] fix: the size of a short array in a payload is read
 back

---
 MQTTSNGateway/GatewayTester/src/Payload.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MQTTSNGateway/GatewayTester/src/Payload.cpp b/MQTTSNGateway/GatewayTester/src/Payload.cpp
index 0feb74c..a873caa 100644
--- a/MQTTSNGateway/GatewayTester/src/Payload.cpp
+++ b/MQTTSNGateway/GatewayTester/src/Payload.cpp
@@ -195,7 +195,7 @@ uint8_t Payload::getArray(uint8_t index){
 	uint8_t rc = 0;
 	uint8_t* val = getBufferPos(index);
 	if(val != 0){
-		if(*val == MSGPACK_ARRAY15){
+		if((*val & 0xf0) == MSGPACK_ARRAY15){
 			rc = *val & 0x0F;
 		}else if(*val == MSGPACK_ARRAY16){
 			rc = (uint8_t)getUint16(val + 1);
-- 
2.43.0


From 135e83946211b29be32d92760dbfe71e73d3a6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:30 +0000
Subject: [PATCH 107/138] fix: do not read outside a payload when an element is
 missing or cut off

---
 MQTTSNGateway/GatewayTester/src/Payload.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/MQTTSNGateway/GatewayTester/src/Payload.cpp b/MQTTSNGateway/GatewayTester/src/Payload.cpp
index a873caa..dce5019 100644
--- a/MQTTSNGateway/GatewayTester/src/Payload.cpp
+++ b/MQTTSNGateway/GatewayTester/src/Payload.cpp
@@ -206,7 +206,7 @@ uint8_t Payload::getArray(uint8_t index){
 
 bool Payload::get_bool(uint8_t index){
 	uint8_t* val = getBufferPos(index);
-	if (*val == MSGPACK_FALSE){
+	if (val == 0 || *val == MSGPACK_FALSE){
 		return false;
 	}else{
 		return true;
@@ -287,9 +287,13 @@ const char* Payload::get_str(uint8_t index, uint16_t* len){
 uint8_t* Payload::getBufferPos(uint8_t index){
 	uint8_t* bpos = 0;
 	uint8_t* pos = _buff;
+	uint8_t* end = _pos;
 
 	for(uint8_t i = 0; i <= index; i++){
 		bpos = pos;
+		if(pos >= end){
+			return 0;
+		}
 		switch(*pos){
 		case MSGPACK_FALSE:
 		case MSGPACK_TRUE:
@@ -310,9 +314,15 @@ uint8_t* Payload::getBufferPos(uint8_t index){
 			pos += 5;
 			break;
 		case MSGPACK_STR8:
+			if(end - pos < 2){
+				return 0;
+			}
 			pos += *(pos + 1) + 2;
 			break;
 		case MSGPACK_STR16:
+			if(end - pos < 3){
+				return 0;
+			}
 			pos += getUint16(pos + 1) + 3;
 			break;
 		default:
@@ -322,13 +332,13 @@ uint8_t* Payload::getBufferPos(uint8_t index){
 				pos++;
 			}else if((*pos & 0xe0) == MSGPACK_FIXSTR){
 				pos += (*pos & 0x1f) + 1;
+			}else{
+				return 0;
 			}
 		}
-		/*
-		if((pos - _buff) >= _len){
+		if(pos > end){
 			return 0;
 		}
-		*/
 	}
 	return bpos;
 }
-- 
2.43.0


From 14e0d8f0014ad687e588a7c687e750f4df75e1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:30 +0000
Subject: [PATCH 108/138] fix: an element of another type is not taken for a
 number

---
 MQTTSNGateway/GatewayTester/src/Payload.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MQTTSNGateway/GatewayTester/src/Payload.cpp b/MQTTSNGateway/GatewayTester/src/Payload.cpp
index dce5019..a9e49ad 100644
--- a/MQTTSNGateway/GatewayTester/src/Payload.cpp
+++ b/MQTTSNGateway/GatewayTester/src/Payload.cpp
@@ -247,7 +247,7 @@ int32_t Payload::get_int32(uint8_t index){
 			rc = (int8_t)*(val + 1);
 		}else if((*val & MSGPACK_NEGINT) == MSGPACK_NEGINT){
 			rc = (int8_t)*val;
-		}else{
+		}else if(*val < MSGPACK_POSINT){
 			rc = (int32_t) *val;
 		}
 	}
-- 
2.43.0


From 00ca05b560dada07a10e0e93ee903ce2fa2336e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:25 +0000
Subject: [PATCH 109/138] fix: the test client sends its will with the QoS and
 retain flags it is configured with

---
 MQTTSNGateway/GatewayTester/src/LGwProxy.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/MQTTSNGateway/GatewayTester/src/LGwProxy.cpp b/MQTTSNGateway/GatewayTester/src/LGwProxy.cpp
index 3e71f83..b2e2436 100644
--- a/MQTTSNGateway/GatewayTester/src/LGwProxy.cpp
+++ b/MQTTSNGateway/GatewayTester/src/LGwProxy.cpp
@@ -74,10 +74,8 @@ void LGwProxy::initialize(SENSORNET_CONFIG_t* netconf, LMqttsnConfig* mqconf)
         exit(-1);
     }
     _clientId = netconf->clientId;
-    _willTopic = mqconf->willTopic;
+    setWillTopic(mqconf->willTopic, mqconf->willQos, mqconf->willRetain);
     _willMsg = mqconf->willMsg;
-    _qosWill = mqconf->willQos;
-    _retainWill = mqconf->willRetain;
     _cleanSession = mqconf->cleanSession;
     _tkeepAlive = mqconf->keepAlive;
     _initialized = 1;
-- 
2.43.0


From 639a6d64dc71190a716a39e8fca205a9ec39a9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:25 +0000
Subject: [PATCH 110/138] fix: the test client's CONNECT does not take its
 flags from the message sent before

---
 MQTTSNGateway/GatewayTester/src/LGwProxy.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/MQTTSNGateway/GatewayTester/src/LGwProxy.cpp b/MQTTSNGateway/GatewayTester/src/LGwProxy.cpp
index b2e2436..5606ea9 100644
--- a/MQTTSNGateway/GatewayTester/src/LGwProxy.cpp
+++ b/MQTTSNGateway/GatewayTester/src/LGwProxy.cpp
@@ -132,11 +132,7 @@ void LGwProxy::connect()
             {
                 *pos++ = 6 + clientIdLen;
                 *pos++ = MQTTSN_TYPE_CONNECT;
-                pos++;
-                if (_cleanSession)
-                {
-                    _msg[2] = MQTTSN_FLAG_CLEAN;
-                }
+                *pos++ = _cleanSession ? MQTTSN_FLAG_CLEAN : 0;
                 *pos++ = MQTTSN_PROTOCOL_ID;
                 setUint16((uint8_t*) pos, _tkeepAlive);
                 pos += 2;
-- 
2.43.0


From 80c58dff2d2a149335c28cee6ba762aa006865a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:25 +0000
Subject: [PATCH 111/138] fix: the test client does not lose its requests when
 others are removed from their list

---
 MQTTSNGateway/GatewayTester/src/LPublishManager.cpp   | 5 ++++-
 MQTTSNGateway/GatewayTester/src/LRegisterManager.cpp  | 5 ++++-
 MQTTSNGateway/GatewayTester/src/LSubscribeManager.cpp | 9 ++++++++-
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/MQTTSNGateway/GatewayTester/src/LPublishManager.cpp b/MQTTSNGateway/GatewayTester/src/LPublishManager.cpp
index 3632e0b..993c368 100644
--- a/MQTTSNGateway/GatewayTester/src/LPublishManager.cpp
+++ b/MQTTSNGateway/GatewayTester/src/LPublishManager.cpp
@@ -367,7 +367,6 @@ void LPublishManager::remove(PubElement* elm)
                 else
                 {
                     elm->next->prev = 0;
-                    _last = elm->next;
                 }
             }
             else
@@ -376,6 +375,10 @@ void LPublishManager::remove(PubElement* elm)
                 {
                     _last = elm->prev;
                 }
+                else
+                {
+                    elm->next->prev = elm->prev;
+                }
                 elm->prev->next = elm->next;
             }
             delElement(elm);
diff --git a/MQTTSNGateway/GatewayTester/src/LRegisterManager.cpp b/MQTTSNGateway/GatewayTester/src/LRegisterManager.cpp
index b7e4197..6674199 100644
--- a/MQTTSNGateway/GatewayTester/src/LRegisterManager.cpp
+++ b/MQTTSNGateway/GatewayTester/src/LRegisterManager.cpp
@@ -91,7 +91,6 @@ void LRegisterManager::remove(RegQueElement* elm)
 				else
 				{
 					elm->next->prev = 0;
-					_last = elm->next;
 				}
 			}
 			else
@@ -100,6 +99,10 @@ void LRegisterManager::remove(RegQueElement* elm)
 				{
 					_last = elm->prev;
 				}
+				else
+				{
+					elm->next->prev = elm->prev;
+				}
 				elm->prev->next = elm->next;
 			}
 			free(elm);
diff --git a/MQTTSNGateway/GatewayTester/src/LSubscribeManager.cpp b/MQTTSNGateway/GatewayTester/src/LSubscribeManager.cpp
index 8630c29..866feee 100644
--- a/MQTTSNGateway/GatewayTester/src/LSubscribeManager.cpp
+++ b/MQTTSNGateway/GatewayTester/src/LSubscribeManager.cpp
@@ -343,7 +343,10 @@ void LSubscribeManager::remove(SubElement* elm)
             if (elm->next != 0)
             {
                 elm->next->prev = 0;
-                _last = elm->next;
+            }
+            else
+            {
+                _last = 0;
             }
             free(elm);
         }
@@ -353,6 +356,10 @@ void LSubscribeManager::remove(SubElement* elm)
             {
                 _last = elm->prev;
             }
+            else
+            {
+                elm->next->prev = elm->prev;
+            }
             elm->prev->next = elm->next;
             free(elm);
         }
-- 
2.43.0


From c9fc2289cd149506aab7180d85dee6ec8b57b193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:25 +0000
Subject: [PATCH 112/138] fix: all publications of the test client which wait
 for a topic id are sent when it comes

---
 MQTTSNGateway/GatewayTester/src/LPublishManager.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/MQTTSNGateway/GatewayTester/src/LPublishManager.cpp b/MQTTSNGateway/GatewayTester/src/LPublishManager.cpp
index 993c368..a8bf40f 100644
--- a/MQTTSNGateway/GatewayTester/src/LPublishManager.cpp
+++ b/MQTTSNGateway/GatewayTester/src/LPublishManager.cpp
@@ -176,18 +176,15 @@ void LPublishManager::sendSuspend(const char* topicName, uint16_t topicId, uint8
     PubElement* elm = _first;
     while (elm)
     {
+        PubElement* next = elm->next;   // a publication with QoS 0 is removed when it is sent
         if (strcmp(elm->topicName, topicName) == 0 && elm->status == TOPICID_IS_SUSPEND)
         {
             elm->topicId = topicId;
             elm->flag |= topicType;
             elm->status = TOPICID_IS_READY;
             sendPublish(elm);
-            elm = 0;
-        }
-        else
-        {
-            elm = elm->next;
         }
+        elm = next;
     }
 }
 
-- 
2.43.0


From 8370de67d11fc4c30cceda524993eed4c4344e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:25 +0000
Subject: [PATCH 113/138] fix: the test client publishes to a short topic
 without registering it

---
 MQTTSNGateway/GatewayTester/src/LPublishManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MQTTSNGateway/GatewayTester/src/LPublishManager.cpp b/MQTTSNGateway/GatewayTester/src/LPublishManager.cpp
index a8bf40f..ff4beeb 100644
--- a/MQTTSNGateway/GatewayTester/src/LPublishManager.cpp
+++ b/MQTTSNGateway/GatewayTester/src/LPublishManager.cpp
@@ -446,7 +446,7 @@ PubElement* LPublishManager::add(const char* topicName, uint16_t topicId, uint8_
         elm->flag |= MQTTSN_FLAG_RETAIN;
     }
 
-    if (topicId)
+    if (topicId || topicType == MQTTSN_TOPIC_TYPE_SHORT)
     {
         elm->status = TOPICID_IS_READY;
         elm->topicId = topicId;
-- 
2.43.0


From bb98930f94596b4c15227419c541d14e99f804fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:25 +0000
Subject: [PATCH 114/138] fix: the test client repeats PUBREL, not PUBLISH,
 after PUBREC has come

---
 MQTTSNGateway/GatewayTester/src/LPublishManager.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/MQTTSNGateway/GatewayTester/src/LPublishManager.cpp b/MQTTSNGateway/GatewayTester/src/LPublishManager.cpp
index ff4beeb..f2fd8b3 100644
--- a/MQTTSNGateway/GatewayTester/src/LPublishManager.cpp
+++ b/MQTTSNGateway/GatewayTester/src/LPublishManager.cpp
@@ -297,7 +297,16 @@ void LPublishManager::checkTimeout(void)
         {
             if (elm->retryCount >= 0)
             {
-                sendPublish(elm);
+                if (elm->status == WAIT_PUBCOMP)
+                {
+                    sendPubRel(elm);
+                    elm->sendUTC = time(NULL);
+                    elm->retryCount--;
+                }
+                else
+                {
+                    sendPublish(elm);
+                }
                 D_MQTTLOG("...Timeout retry\r\n");
             }
             else
-- 
2.43.0


From c8c76c1f845abecbcdf6012c72d967fd53768cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:25 +0000
Subject: [PATCH 115/138] fix: the test client does not take a rejected
 REGISTER for an accepted one

---
 MQTTSNGateway/GatewayTester/src/LGwProxy.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/MQTTSNGateway/GatewayTester/src/LGwProxy.cpp b/MQTTSNGateway/GatewayTester/src/LGwProxy.cpp
index 5606ea9..4997e42 100644
--- a/MQTTSNGateway/GatewayTester/src/LGwProxy.cpp
+++ b/MQTTSNGateway/GatewayTester/src/LGwProxy.cpp
@@ -393,7 +393,10 @@ int LGwProxy::getMessage(void)
     }
     else if (_mqttsnMsg[0] == MQTTSN_TYPE_REGACK)
     {
-        _regMgr.responceRegAck(getUint16(_mqttsnMsg + 3), getUint16(_mqttsnMsg + 1));
+        if (_mqttsnMsg[5] == MQTTSN_RC_ACCEPTED)
+        {
+            _regMgr.responceRegAck(getUint16(_mqttsnMsg + 3), getUint16(_mqttsnMsg + 1));
+        }
 
     }
     else if (_mqttsnMsg[0] == MQTTSN_TYPE_PINGRESP)
-- 
2.43.0


From a77a4369d8d4e8c74c014d2feedc0036c1b1990f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:25 +0000
Subject: [PATCH 116/138] fix: the test client sends and receives messages
 longer than 255 bytes

---
 MQTTSNGateway/GatewayTester/src/LGwProxy.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/MQTTSNGateway/GatewayTester/src/LGwProxy.cpp b/MQTTSNGateway/GatewayTester/src/LGwProxy.cpp
index 4997e42..07915df 100644
--- a/MQTTSNGateway/GatewayTester/src/LGwProxy.cpp
+++ b/MQTTSNGateway/GatewayTester/src/LGwProxy.cpp
@@ -458,12 +458,12 @@ int LGwProxy::writeMsg(const uint8_t* msg)
 {
     uint16_t len;
     uint8_t pos;
-    uint8_t rc = 0;
+    int rc = 0;
 
     if (msg[0] == 0x01)
     {
         len = getUint16(msg + 1);
-        pos = 2;
+        pos = 3;
     }
     else
     {
@@ -530,12 +530,8 @@ int LGwProxy::readMsg(void)
 
     if (_mqttsnMsg[0] == 0x01)
     {
-        int msgLen = (int) getUint16((const uint8_t*) _mqttsnMsg + 1);
-        if (len != msgLen)
-        {
-            _mqttsnMsg += 3;
-            len = msgLen - 3;
-        }
+        _mqttsnMsg += 3;
+        len -= 3;
     }
     else
     {
-- 
2.43.0


From 6e523c3f9f9844bddd62af997abf581f0f911890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:25 +0000
Subject: [PATCH 117/138] fix: a topic registered by the gateway is kept by the
 test client with its name and id

---
 .../GatewayTester/src/LRegisterManager.cpp    | 22 +++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/MQTTSNGateway/GatewayTester/src/LRegisterManager.cpp b/MQTTSNGateway/GatewayTester/src/LRegisterManager.cpp
index 6674199..a99c6d2 100644
--- a/MQTTSNGateway/GatewayTester/src/LRegisterManager.cpp
+++ b/MQTTSNGateway/GatewayTester/src/LRegisterManager.cpp
@@ -27,6 +27,7 @@ using namespace std;
 using namespace linuxAsyncClient;
 
 extern void setUint16(uint8_t* pos, uint16_t val);
+extern uint16_t getUint16(const uint8_t* pos);
 extern LMqttsnClient* theClient;
 /*=====================================
  Class RegisterQue
@@ -205,18 +206,31 @@ void LRegisterManager::responceRegAck(uint16_t msgId, uint16_t topicId)
 
 void LRegisterManager::responceRegister(uint8_t* msg, uint16_t msglen)
 {
-	// *msg is terminated with 0x00 by Network::getMessage()
+	if (msglen < 5 || msglen > MQTTSN_MAX_PACKET_SIZE)
+	{
+		return;
+	}
+	char topicName[MQTTSN_MAX_PACKET_SIZE];
+	memcpy(topicName, msg + 5, msglen - 5);
+	topicName[msglen - 5] = 0;
 	uint8_t regack[7];
 	regack[0] = 7;
 	regack[1] = MQTTSN_TYPE_REGACK;
 	memcpy(regack + 2, msg + 1, 4);
 
-	LTopic* tp = theClient->getGwProxy()->getTopicTable()->match((char*) msg + 5);
+	LTopic* tp = theClient->getGwProxy()->getTopicTable()->match(topicName);
 	if (tp)
 	{
 		TopicCallback callback = tp->getCallback();
-		void* topicName = calloc(strlen((char*) msg + 5) + 1, sizeof(char));
-		theClient->getGwProxy()->getTopicTable()->add((char*) topicName, MQTTSN_TOPIC_TYPE_NORMAL, 0, callback, 1);
+		uint16_t topicId = getUint16(msg + 1);
+		if (theClient->getGwProxy()->getTopicTable()->getTopic(topicName))
+		{
+			theClient->getGwProxy()->getTopicTable()->setTopicId(topicName, topicId, MQTTSN_TOPIC_TYPE_NORMAL);
+		}
+		else
+		{
+			theClient->getGwProxy()->getTopicTable()->add(strdup(topicName), MQTTSN_TOPIC_TYPE_NORMAL, topicId, callback, 1);
+		}
 		regack[6] = MQTTSN_RC_ACCEPTED;
 	}
 	else
-- 
2.43.0


From 99e7e6b9568e32e083f8e280410e05c4afe4d9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:25 +0000
Subject: [PATCH 118/138] fix: the test client matches topic names against
 wildcards level by level

---
 .../GatewayTester/src/LTopicTable.cpp         | 43 +++++++------------
 1 file changed, 15 insertions(+), 28 deletions(-)

diff --git a/MQTTSNGateway/GatewayTester/src/LTopicTable.cpp b/MQTTSNGateway/GatewayTester/src/LTopicTable.cpp
index d1e191b..0b79797 100644
--- a/MQTTSNGateway/GatewayTester/src/LTopicTable.cpp
+++ b/MQTTSNGateway/GatewayTester/src/LTopicTable.cpp
@@ -69,41 +69,28 @@ uint8_t LTopic::hasWildCard(uint8_t* pos){
 }
 
 bool LTopic::isMatch(const char* topic){
-    uint8_t pos;
+	const char* filter = _topicStr;
 
-	if ( strlen(topic) < strlen(_topicStr)){
+	if (filter == 0){      // a predefined topic has no name
 		return false;
 	}
 
-	uint8_t wc = hasWildCard(&pos);
-
-	if (wc == MQTTSN_TOPIC_SINGLE_WILDCARD){
-		if ( strncmp(_topicStr, topic, pos - 1) == 0){
-			if (*(_topicStr + pos + 1) == '/'){
-				for(uint8_t p = pos; p < strlen(topic); p++){
-					if (*(topic + p) == '/'){
-						if (strcmp(_topicStr + pos + 1, topic + p ) == 0){
-							return true;
-						}
-					}
-				}
-			}else{
-				for(uint8_t p = pos + 1;p < strlen(topic); p++){
-					if (*(topic + p) == '/'){
-						return false;
-					}
-				}
-			}
-			return true;
-		}
-	}else if (wc == MQTTSN_TOPIC_MULTI_WILDCARD){
-		if (strncmp(_topicStr, topic, pos) == 0){
+	while (*filter){
+		if (*filter == '#'){
 			return true;
+		}else if (*filter == '+'){
+			filter++;
+			while (*topic && *topic != '/'){
+				topic++;
+			}
+		}else if (*filter == *topic){
+			filter++;
+			topic++;
+		}else{
+			return *topic == 0 && strcmp(filter, "/#") == 0;
 		}
-	}else if (strcmp(_topicStr, topic) == 0){
-		return true;
 	}
-	return false;
+	return *topic == 0;
 }
 
 
-- 
2.43.0


From 63d13a3a924e3f68c4a54de60804a015a4d3438c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:25 +0000
Subject: [PATCH 119/138] fix: subscriptions of the test client to predefined
 and short topics, and to names which begin alike, do not get in the way of
 others

---
 .../GatewayTester/src/LSubscribeManager.cpp      | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/GatewayTester/src/LSubscribeManager.cpp b/MQTTSNGateway/GatewayTester/src/LSubscribeManager.cpp
index 866feee..a7c6ac6 100644
--- a/MQTTSNGateway/GatewayTester/src/LSubscribeManager.cpp
+++ b/MQTTSNGateway/GatewayTester/src/LSubscribeManager.cpp
@@ -88,7 +88,15 @@ void LSubscribeManager::onConnect(void)
             {
                 elm->done = SUB_READY;
                 elm->retryCount = MQTTSN_RETRY_COUNT;
-                subscribe(elm->topicName, elm->callback, elm->qos);
+                uint8_t qos = elm->qos >> 5;
+                if (elm->topicType == MQTTSN_TOPIC_TYPE_PREDEFINED)
+                {
+                    subscribePredefinedId(elm->topicId, elm->callback, qos);
+                }
+                else
+                {
+                    subscribe(elm->topicName, elm->callback, qos);
+                }
             }
             elm = pelm->next;
         } while (pelm->next);
@@ -242,6 +250,10 @@ void LSubscribeManager::responce(const uint8_t* msg)
         {
             if ( rc == MQTTSN_RC_ACCEPTED )
             {
+                if (elm->topicType == MQTTSN_TOPIC_TYPE_SHORT)
+                {
+                    topicId = getUint16((const uint8_t*) elm->topicName);   // the name is the id
+                }
                 theClient->getGwProxy()->getTopicTable()->add((char*) elm->topicName, elm->topicType, topicId, elm->callback);
                 getElement(msgId)->done = SUB_DONE;
                 DISPLAY("\033[0m\033[0;32m Topic \"%s\" Id : %d was Subscribed. \033[0m\033[0;37m\n\n", getElement(msgId)->topicName, topicId);
@@ -388,7 +400,7 @@ SubElement* LSubscribeManager::getElement(const char* topicName, uint8_t msgType
     SubElement* elm = _first;
     while (elm)
     {
-        if ( elm->msgType == msgType &&  strncmp(elm->topicName, topicName, strlen(topicName)) == 0 )
+        if ( elm->msgType == msgType && elm->topicName && strcmp(elm->topicName, topicName) == 0 )
         {
             return elm;
         }
-- 
2.43.0


From 4830c3229e9d769c752e0c74179577ca8ad6c889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:25 +0000
Subject: [PATCH 120/138] fix: a request of the test client is ended by its own
 acknowledgement only

---
 MQTTSNGateway/GatewayTester/src/LSubscribeManager.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/GatewayTester/src/LSubscribeManager.cpp b/MQTTSNGateway/GatewayTester/src/LSubscribeManager.cpp
index a7c6ac6..fa9c27f 100644
--- a/MQTTSNGateway/GatewayTester/src/LSubscribeManager.cpp
+++ b/MQTTSNGateway/GatewayTester/src/LSubscribeManager.cpp
@@ -246,7 +246,7 @@ void LSubscribeManager::responce(const uint8_t* msg)
         uint8_t rc = msg[6];
 
         SubElement* elm = getElement(msgId);
-        if (elm)
+        if (elm && elm->msgType == MQTTSN_TYPE_SUBSCRIBE)
         {
             if ( rc == MQTTSN_RC_ACCEPTED )
             {
@@ -269,7 +269,7 @@ void LSubscribeManager::responce(const uint8_t* msg)
     {
         uint16_t msgId = getUint16(msg + 1);
         SubElement* elm = getElement(msgId);
-        if (elm)
+        if (elm && elm->msgType == MQTTSN_TYPE_UNSUBSCRIBE)
         {
             //theClient->getGwProxy()->getTopicTable()->setCallback(elm->topicName, 0);
             DISPLAY("\033[0m\033[0;32m Topic  \"%s\"  was Unsubscribed. \033[0m\033[0;37m\n\n", getElement(msgId)->topicName);
-- 
2.43.0


From 291797ac1b500f9dd3dc99509207b8baaedb4416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:25 +0000
Subject: [PATCH 121/138] fix: what the test client has unsubscribed is not
 subscribed again when it reconnects

---
 MQTTSNGateway/GatewayTester/src/LSubscribeManager.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/MQTTSNGateway/GatewayTester/src/LSubscribeManager.cpp b/MQTTSNGateway/GatewayTester/src/LSubscribeManager.cpp
index fa9c27f..eb09a5a 100644
--- a/MQTTSNGateway/GatewayTester/src/LSubscribeManager.cpp
+++ b/MQTTSNGateway/GatewayTester/src/LSubscribeManager.cpp
@@ -273,6 +273,10 @@ void LSubscribeManager::responce(const uint8_t* msg)
         {
             //theClient->getGwProxy()->getTopicTable()->setCallback(elm->topicName, 0);
             DISPLAY("\033[0m\033[0;32m Topic  \"%s\"  was Unsubscribed. \033[0m\033[0;37m\n\n", getElement(msgId)->topicName);
+            if (elm->topicName)
+            {
+                remove(getElement(elm->topicName, MQTTSN_TYPE_SUBSCRIBE));
+            }
             remove(elm);
         }
         else
-- 
2.43.0


From 9d30bfe36d942759deb5dfad694ba9a6b8768939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:25 +0000
Subject: [PATCH 122/138] fix: the test client takes the length of an
 encapsulated message without the byte it is told in

---
 MQTTSNGateway/GatewayTester/src/LGwProxy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MQTTSNGateway/GatewayTester/src/LGwProxy.cpp b/MQTTSNGateway/GatewayTester/src/LGwProxy.cpp
index 07915df..840fcc9 100644
--- a/MQTTSNGateway/GatewayTester/src/LGwProxy.cpp
+++ b/MQTTSNGateway/GatewayTester/src/LGwProxy.cpp
@@ -552,7 +552,7 @@ int LGwProxy::readMsg(void)
         else
         {
             msg += (lenEncap + 1);
-            len = *(msg - 1);
+            len = *(msg - 1) - 1;
         }
         _mqttsnMsg = msg;
         DISPLAY("  recv encapslated message\n");
-- 
2.43.0


From 7a8270e8f153bb95b19b889114175a0e7866d6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:03 +0000
Subject: [PATCH 123/138] fix: the timer of the test client is up from its time
 on, however long that was ago

---
 MQTTSNGateway/GatewayTester/src/LTimer.cpp | 26 ++++++++++------------
 MQTTSNGateway/GatewayTester/src/LTimer.h   |  2 ++
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/MQTTSNGateway/GatewayTester/src/LTimer.cpp b/MQTTSNGateway/GatewayTester/src/LTimer.cpp
index 346f181..dbf3793 100644
--- a/MQTTSNGateway/GatewayTester/src/LTimer.cpp
+++ b/MQTTSNGateway/GatewayTester/src/LTimer.cpp
@@ -47,15 +47,10 @@ bool LTimer::isTimeUp(void){
 }
 
 bool LTimer::isTimeUp(uint32_t msec){
-    struct timeval curTime;
-    uint32_t secs, usecs;
     if (_startTime.tv_sec == 0){
         return false;
     }else{
-        gettimeofday(&curTime, 0);
-        secs  = (curTime.tv_sec  - _startTime.tv_sec) * 1000;
-        usecs = (curTime.tv_usec - _startTime.tv_usec) / 1000.0;
-        return ((secs + usecs) > (uint32_t)msec);
+        return getElapsed() > (int64_t)msec;
     }
 }
 
@@ -66,15 +61,18 @@ void LTimer::stop(){
 
 uint32_t LTimer::getRemain(void)
 {
-    struct timeval curTime;
-    uint32_t secs, usecs;
-    if (_millis <= 0){
+    int64_t elapsed;
+    if (_millis == 0){
         return 0;
     }else{
-        gettimeofday(&curTime, 0);
-        secs  = (curTime.tv_sec  - _startTime.tv_sec) * 1000;
-        usecs = (curTime.tv_usec - _startTime.tv_usec) / 1000.0;
-        secs = _millis - (secs + usecs);
-        return secs;
+        elapsed = getElapsed();
+        return elapsed < (int64_t)_millis ? (uint32_t)(_millis - elapsed) : 0;
     }
 }
+
+int64_t LTimer::getElapsed(void)
+{
+    struct timeval curTime;
+    gettimeofday(&curTime, 0);
+    return ((int64_t)curTime.tv_sec - _startTime.tv_sec) * 1000 + ((int64_t)curTime.tv_usec - _startTime.tv_usec) / 1000;
+}
diff --git a/MQTTSNGateway/GatewayTester/src/LTimer.h b/MQTTSNGateway/GatewayTester/src/LTimer.h
index cb44cc0..a51e377 100644
--- a/MQTTSNGateway/GatewayTester/src/LTimer.h
+++ b/MQTTSNGateway/GatewayTester/src/LTimer.h
@@ -18,6 +18,7 @@
 #define TIMER_H_
 
 #include <sys/time.h>
+#include <stdint.h>
 
 #include "LMqttsnClientApp.h"
 
@@ -38,6 +39,7 @@ public:
     uint32_t getRemain(void);
     static void setUnixTime(uint32_t utc){};
 private:
+    int64_t getElapsed(void);
     struct timeval _startTime;
     uint32_t _millis;
 };
-- 
2.43.0


From 16df12f8a4906747358fbb8daf800cfe0c045873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:08 +0000
Subject: [PATCH 124/138] fix: the test client takes a datagram over UDP only
 if it holds the whole message

---
 MQTTSNGateway/GatewayTester/src/LGwProxy.cpp  |  2 +-
 .../GatewayTester/src/LNetworkUdp.cpp         | 45 +++++++++++--------
 .../GatewayTester/src/LNetworkUdp6.cpp        | 40 +++++++++++------
 3 files changed, 53 insertions(+), 34 deletions(-)

diff --git a/MQTTSNGateway/GatewayTester/src/LGwProxy.cpp b/MQTTSNGateway/GatewayTester/src/LGwProxy.cpp
index 840fcc9..37bc092 100644
--- a/MQTTSNGateway/GatewayTester/src/LGwProxy.cpp
+++ b/MQTTSNGateway/GatewayTester/src/LGwProxy.cpp
@@ -541,7 +541,7 @@ int LGwProxy::readMsg(void)
 
     if (*_mqttsnMsg == MQTTSN_TYPE_ENCAPSULATED)
     {
-        int lenEncap = len + 1;
+        int lenEncap = (int) (_mqttsnMsg - msg) + len;
 
         if (msg[lenEncap] == 0x01)
         {
diff --git a/MQTTSNGateway/GatewayTester/src/LNetworkUdp.cpp b/MQTTSNGateway/GatewayTester/src/LNetworkUdp.cpp
index c0ac9e9..6e7c530 100644
--- a/MQTTSNGateway/GatewayTester/src/LNetworkUdp.cpp
+++ b/MQTTSNGateway/GatewayTester/src/LNetworkUdp.cpp
@@ -38,6 +38,25 @@ extern uint16_t getUint16(const uint8_t *pos);
 extern uint32_t getUint32(const uint8_t *pos);
 extern LScreen *theScreen;
 extern bool theClientMode;
+
+/* Length of the message at buf, 0 if the size bytes do not hold it whole. */
+static int getMessageLength(const uint8_t *buf, int size)
+{
+    int len = 0;
+    int min = 2;
+
+    if (size >= 3 && buf[0] == 0x01)
+    {
+        len = getUint16(buf + 1);
+        min = 4;
+    }
+    else if (size > 0)
+    {
+        len = buf[0];
+    }
+    return len >= min && len <= size ? len : 0;
+}
+
 /*=========================================
  Class LNetwork
  =========================================*/
@@ -67,34 +86,22 @@ uint8_t* LNetwork::getMessage(int *len)
     *len = 0;
     if (checkRecvBuf())
     {
-        uint16_t recvLen = LUdpPort::recv(_rxDataBuf, MQTTSN_MAX_PACKET_SIZE, false, &_ipAddress, &_portNo);
+        int recvLen = LUdpPort::recv(_rxDataBuf, MQTTSN_MAX_PACKET_SIZE, false, &_ipAddress, &_portNo);
         if (_gwIpAddress && isUnicast() && (_ipAddress != _gwIpAddress) && (_portNo != _gwPortNo))
         {
             return 0;
         }
 
-        if (recvLen < 0)
+        *len = getMessageLength(_rxDataBuf, recvLen);
+        if (*len > 0)
         {
-            *len = recvLen;
-            return 0;
-        }
-        else
-        {
-            if (_rxDataBuf[0] == 0x01)
-            {
-                *len = getUint16(_rxDataBuf + 1);
-            }
-            else
+            int pos = _rxDataBuf[0] == 0x01 ? 3 : 1;
+            if (_rxDataBuf[pos] == MQTTSN_TYPE_ENCAPSULATED && getMessageLength(_rxDataBuf + *len, recvLen - *len) == 0)
             {
-                *len = _rxDataBuf[0];
+                *len = 0;
             }
-            //if(recvLen != *len){
-            //	*len = 0;
-            //	return 0;
-            //}else{
-            return _rxDataBuf;
-            //}
         }
+        return *len > 0 ? _rxDataBuf : 0;
     }
     return 0;
 }
diff --git a/MQTTSNGateway/GatewayTester/src/LNetworkUdp6.cpp b/MQTTSNGateway/GatewayTester/src/LNetworkUdp6.cpp
index 0d1167f..ef30a36 100644
--- a/MQTTSNGateway/GatewayTester/src/LNetworkUdp6.cpp
+++ b/MQTTSNGateway/GatewayTester/src/LNetworkUdp6.cpp
@@ -39,6 +39,25 @@ extern uint16_t getUint16(const uint8_t *pos);
 extern uint32_t getUint32(const uint8_t *pos);
 extern LScreen *theScreen;
 extern bool theClientMode;
+
+/* Length of the message at buf, 0 if the size bytes do not hold it whole. */
+static int getMessageLength(const uint8_t *buf, int size)
+{
+    int len = 0;
+    int min = 2;
+
+    if (size >= 3 && buf[0] == 0x01)
+    {
+        len = getUint16(buf + 1);
+        min = 4;
+    }
+    else if (size > 0)
+    {
+        len = buf[0];
+    }
+    return len >= min && len <= size ? len : 0;
+}
+
 /*=========================================
  Class LNetwork
  =========================================*/
@@ -68,30 +87,23 @@ uint8_t* LNetwork::getMessage(int *len)
     *len = 0;
     if (checkRecvBuf())
     {
-        uint16_t recvLen = LUdp6Port::recv(_rxDataBuf, MQTTSN_MAX_PACKET_SIZE, false, &_ipAddress, &_portNo);
+        int recvLen = LUdp6Port::recv(_rxDataBuf, MQTTSN_MAX_PACKET_SIZE, false, &_ipAddress, &_portNo);
         int diffAddr = memcmp(_ipAddress.s6_addr, _gwIpAddress.s6_addr, sizeof(_gwIpAddress.s6_addr));
         if (isUnicast() && diffAddr && (_portNo != _gwPortNo))
         {
             return 0;
         }
 
-        if (recvLen < 0)
+        *len = getMessageLength(_rxDataBuf, recvLen);
+        if (*len > 0)
         {
-            *len = recvLen;
-            return 0;
-        }
-        else
-        {
-            if (_rxDataBuf[0] == 0x01)
-            {
-                *len = getUint16(_rxDataBuf + 1);
-            }
-            else
+            int pos = _rxDataBuf[0] == 0x01 ? 3 : 1;
+            if (_rxDataBuf[pos] == MQTTSN_TYPE_ENCAPSULATED && getMessageLength(_rxDataBuf + *len, recvLen - *len) == 0)
             {
-                *len = _rxDataBuf[0];
+                *len = 0;
             }
-            return _rxDataBuf;
         }
+        return *len > 0 ? _rxDataBuf : 0;
     }
     return 0;
 }
-- 
2.43.0


From de506c3974c2270342129e1e660a2a6da0b76812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:10 +0000
Subject: [PATCH 125/138] fix: the test client ignores messages which are too
 short for their type

---
 MQTTSNGateway/GatewayTester/src/LGwProxy.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/MQTTSNGateway/GatewayTester/src/LGwProxy.cpp b/MQTTSNGateway/GatewayTester/src/LGwProxy.cpp
index 37bc092..6057c9f 100644
--- a/MQTTSNGateway/GatewayTester/src/LGwProxy.cpp
+++ b/MQTTSNGateway/GatewayTester/src/LGwProxy.cpp
@@ -38,6 +38,9 @@ static const char* packet_names[] = { "ADVERTISE", "SEARCHGW", "GWINFO", "RESERV
         "PUBREC", "PUBREL", "RESERVED", "SUBSCRIBE", "SUBACK", "UNSUBSCRIBE", "UNSUBACK", "PINGREQ", "PINGRESP",
         "DISCONNECT", "RESERVED", "WILLTOPICUPD", "WILLTOPICRESP", "WILLMSGUPD", "WILLMSGRESP" };
 
+/* the shortest messages of these types, without the length field */
+static const uint8_t minLength[] = { 4, 2, 2, 1, 1, 2, 1, 1, 1, 1, 5, 6, 6, 6, 3, 3, 3, 1, 1, 7, 1, 3, 1, 1, 1, 1, 1, 2, 1, 2 };
+
 LGwProxy::LGwProxy()
 {
     _nextMsgId = 0;
@@ -560,6 +563,10 @@ int LGwProxy::readMsg(void)
 
     if (*_mqttsnMsg >= MQTTSN_TYPE_ADVERTISE && *_mqttsnMsg <= MQTTSN_TYPE_WILLMSGRESP)
     {
+        if (len < minLength[*_mqttsnMsg])
+        {
+            return 0;     // too short for its type
+        }
         DISPLAY("  recv %s\n", packet_names[*_mqttsnMsg]);
     }
     return len;
-- 
2.43.0


From fec26348f137a66f25b1329f4a3b84c7bd8e8246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:11 +0000
Subject: [PATCH 126/138] fix: the test client takes no messages from others
 than its gateway

---
 MQTTSNGateway/GatewayTester/src/LNetworkUdp.cpp  | 2 +-
 MQTTSNGateway/GatewayTester/src/LNetworkUdp6.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/GatewayTester/src/LNetworkUdp.cpp b/MQTTSNGateway/GatewayTester/src/LNetworkUdp.cpp
index 6e7c530..55a2249 100644
--- a/MQTTSNGateway/GatewayTester/src/LNetworkUdp.cpp
+++ b/MQTTSNGateway/GatewayTester/src/LNetworkUdp.cpp
@@ -87,7 +87,7 @@ uint8_t* LNetwork::getMessage(int *len)
     if (checkRecvBuf())
     {
         int recvLen = LUdpPort::recv(_rxDataBuf, MQTTSN_MAX_PACKET_SIZE, false, &_ipAddress, &_portNo);
-        if (_gwIpAddress && isUnicast() && (_ipAddress != _gwIpAddress) && (_portNo != _gwPortNo))
+        if (_gwIpAddress && isUnicast() && (_ipAddress != _gwIpAddress || _portNo != _gwPortNo))
         {
             return 0;
         }
diff --git a/MQTTSNGateway/GatewayTester/src/LNetworkUdp6.cpp b/MQTTSNGateway/GatewayTester/src/LNetworkUdp6.cpp
index ef30a36..f387caa 100644
--- a/MQTTSNGateway/GatewayTester/src/LNetworkUdp6.cpp
+++ b/MQTTSNGateway/GatewayTester/src/LNetworkUdp6.cpp
@@ -89,7 +89,7 @@ uint8_t* LNetwork::getMessage(int *len)
     {
         int recvLen = LUdp6Port::recv(_rxDataBuf, MQTTSN_MAX_PACKET_SIZE, false, &_ipAddress, &_portNo);
         int diffAddr = memcmp(_ipAddress.s6_addr, _gwIpAddress.s6_addr, sizeof(_gwIpAddress.s6_addr));
-        if (isUnicast() && diffAddr && (_portNo != _gwPortNo))
+        if (isUnicast() && diffAddr)
         {
             return 0;
         }
-- 
2.43.0


From fcec3fe856a2964773a56d7c170a909cda98e56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:13 +0000
Subject: [PATCH 127/138] fix: an empty datagram does not stop the test client
 from receiving

---
 MQTTSNGateway/GatewayTester/src/LNetworkUdp.cpp  | 14 ++++++++++++--
 MQTTSNGateway/GatewayTester/src/LNetworkUdp6.cpp |  7 ++++++-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/MQTTSNGateway/GatewayTester/src/LNetworkUdp.cpp b/MQTTSNGateway/GatewayTester/src/LNetworkUdp.cpp
index 55a2249..d3fb1b0 100644
--- a/MQTTSNGateway/GatewayTester/src/LNetworkUdp.cpp
+++ b/MQTTSNGateway/GatewayTester/src/LNetworkUdp.cpp
@@ -367,7 +367,12 @@ bool LUdpPort::checkRecvBuf()
 
     if (FD_ISSET(_sockfdUcast, &recvfds))
     {
-        if (::recv(_sockfdUcast, buf, 1, MSG_DONTWAIT | MSG_PEEK) > 0)
+        int rc = ::recv(_sockfdUcast, buf, 1, MSG_DONTWAIT | MSG_PEEK);
+        if (rc == 0)
+        {
+            ::recv(_sockfdUcast, buf, 1, MSG_DONTWAIT);    // drop an empty datagram
+        }
+        else if (rc > 0)
         {
             _castStat = STAT_UNICAST;
             return true;
@@ -375,7 +380,12 @@ bool LUdpPort::checkRecvBuf()
     }
     else if (FD_ISSET(_sockfdMcast, &recvfds))
     {
-        if (::recv(_sockfdMcast, buf, 1, MSG_DONTWAIT | MSG_PEEK) > 0)
+        int rc = ::recv(_sockfdMcast, buf, 1, MSG_DONTWAIT | MSG_PEEK);
+        if (rc == 0)
+        {
+            ::recv(_sockfdMcast, buf, 1, MSG_DONTWAIT);    // drop an empty datagram
+        }
+        else if (rc > 0)
         {
             _castStat = STAT_MULTICAST;
             return true;
diff --git a/MQTTSNGateway/GatewayTester/src/LNetworkUdp6.cpp b/MQTTSNGateway/GatewayTester/src/LNetworkUdp6.cpp
index f387caa..897e438 100644
--- a/MQTTSNGateway/GatewayTester/src/LNetworkUdp6.cpp
+++ b/MQTTSNGateway/GatewayTester/src/LNetworkUdp6.cpp
@@ -372,7 +372,12 @@ bool LUdp6Port::checkRecvBuf()
     {
         if (_pollfds[i].revents & POLLIN)
         {
-            if (::recv(_pollfds[i].fd, buf, 1, MSG_DONTWAIT | MSG_PEEK) > 0)
+            int rc = ::recv(_pollfds[i].fd, buf, 1, MSG_DONTWAIT | MSG_PEEK);
+            if (rc == 0)
+            {
+                ::recv(_pollfds[i].fd, buf, 1, MSG_DONTWAIT);    // drop an empty datagram
+            }
+            else if (rc > 0)
             {
                 _sock = _pollfds[i].fd;
                 return true;
-- 
2.43.0


From 7713c880c19bbc30f24b7f5d956c67a61f968ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:14 +0000
Subject: [PATCH 128/138] fix: the test client sends to the scope 0 over UDP6,
 not to any

---
 MQTTSNGateway/GatewayTester/src/LNetworkUdp6.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MQTTSNGateway/GatewayTester/src/LNetworkUdp6.cpp b/MQTTSNGateway/GatewayTester/src/LNetworkUdp6.cpp
index 897e438..280f2ce 100644
--- a/MQTTSNGateway/GatewayTester/src/LNetworkUdp6.cpp
+++ b/MQTTSNGateway/GatewayTester/src/LNetworkUdp6.cpp
@@ -261,6 +261,7 @@ bool LUdp6Port::open(LUdp6Config *config)
     }
     _pollfds[1].fd = sock;
     _pollfds[1].events = POLLIN;
+    memset(&_gIpAddr, 0, sizeof(_gIpAddr));
     _gIpAddr.sin6_family = AF_INET6;
     _gIpAddr.sin6_port = _gPortNo;
     memcpy(&_gIpAddr.sin6_addr, (const void*) &addrm.ipv6mr_multiaddr, sizeof(addrm.ipv6mr_multiaddr));
@@ -271,6 +272,7 @@ bool LUdp6Port::open(LUdp6Config *config)
 int LUdp6Port::unicast(const uint8_t *buf, uint32_t length, in6_addr ipAddress, uint16_t port)
 {
     struct sockaddr_in6 dest;
+    memset(&dest, 0, sizeof(dest));
     dest.sin6_family = AF_INET6;
     dest.sin6_port = port;
     memcpy(dest.sin6_addr.s6_addr, (const void*) ipAddress.s6_addr, sizeof(ipAddress.s6_addr));
-- 
2.43.0


From 20e56d87ec9996beb09c36270c421fd9bebc1855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:06:08 +0000
Subject: [PATCH 129/138] fix: the DTLS network of the gateway compiles
 (ordered comparison of a pointer with zero)

---
 MQTTSNGateway/src/linux/dtls/SensorNetwork.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MQTTSNGateway/src/linux/dtls/SensorNetwork.cpp b/MQTTSNGateway/src/linux/dtls/SensorNetwork.cpp
index 3f2dcf3..170a900 100644
--- a/MQTTSNGateway/src/linux/dtls/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/dtls/SensorNetwork.cpp
@@ -308,7 +308,7 @@ Connections::~Connections()
     {
         for (int i = 0; i < _numfds; i++)
         {
-            if (_ssls[i] > 0)
+            if (_ssls[i] != nullptr)
             {
                 SSL_shutdown(_ssls[i]);
                 SSL_free(_ssls[i]);
@@ -348,7 +348,7 @@ void Connections::closeSSL(int index)
     index += POLL_SSL;
     SSL_shutdown(_ssls[index]);
     SSL_free(_ssls[index]);
-    _ssls[index] = (SSL*) -1;
+    _ssls[index] = nullptr;
 }
 
 int Connections::getEventUnicast(void)
@@ -416,7 +416,7 @@ void Connections::close(int index)
         }
     }
 
-    if (ssl > 0)
+    if (ssl != nullptr)
     {
         _numfds--;
         SSL_shutdown(ssl);
-- 
2.43.0


From 92098f782e72182786183b2697e1c9d11ce5c56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:06:10 +0000
Subject: [PATCH 130/138] fix: DTLS network keeps its lock when nothing was to
 be read, and closes a connection outside it

---
 MQTTSNGateway/src/linux/dtls/SensorNetwork.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/linux/dtls/SensorNetwork.cpp b/MQTTSNGateway/src/linux/dtls/SensorNetwork.cpp
index 170a900..10f2c58 100644
--- a/MQTTSNGateway/src/linux/dtls/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/dtls/SensorNetwork.cpp
@@ -728,8 +728,8 @@ int SensorNetwork::read(uint8_t *buf, uint16_t bufLen)
                         D_NWSTACK("Client %s A packet is ClientHello. Client reconnected. Close connection. SSL_connection will timeout.\n", clientaddrBuf);
 #endif
                         clientIndex = i;
-                        _mutex.unlock();
                         _conns->close(clientIndex);
+                        _mutex.unlock();
                         return 0;
                     }
 
@@ -758,6 +758,7 @@ int SensorNetwork::read(uint8_t *buf, uint16_t bufLen)
                 }
             }
         }
+        _mutex.unlock();
     }
     return 0;
 }
-- 
2.43.0


From a69a783c61aad37e07cf42db86e88d5f3d91dfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:06:11 +0000
Subject: [PATCH 131/138] fix: DTLS packets go to the connection of their
 device, and no more devices connect than there is room for

---
 .../src/linux/dtls/SensorNetwork.cpp          | 61 ++++++++++++++++---
 MQTTSNGateway/src/linux/dtls/SensorNetwork.h  |  4 +-
 2 files changed, 55 insertions(+), 10 deletions(-)

diff --git a/MQTTSNGateway/src/linux/dtls/SensorNetwork.cpp b/MQTTSNGateway/src/linux/dtls/SensorNetwork.cpp
index 10f2c58..b835867 100644
--- a/MQTTSNGateway/src/linux/dtls/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/dtls/SensorNetwork.cpp
@@ -298,6 +298,7 @@ Connections::Connections()
 {
     _pollfds = nullptr;
     _ssls = nullptr;
+    _addrs = nullptr;
     _maxfds = 0;
     _numfds = 2;
 }
@@ -317,6 +318,11 @@ Connections::~Connections()
         free(_ssls);
     }
 
+    if (_addrs)
+    {
+        delete[] _addrs;
+    }
+
     if (_pollfds)
     {
         for (int i = 0; i < _numfds; i++)
@@ -341,6 +347,7 @@ void Connections::initialize(int maxClient)
     {
         throw EXCEPTION("Can't allocate ssls.", 0);
     }
+    _addrs = new SensorNetAddress[_maxfds];
 }
 
 void Connections::closeSSL(int index)
@@ -405,20 +412,18 @@ void Connections::close(int index)
     int sock = _pollfds[idx].fd;
     SSL *ssl = _ssls[idx];
 
+    _numfds--;
     for (; idx < _numfds; idx++)
     {
         _ssls[idx] = _ssls[idx + 1];
         _pollfds[idx] = _pollfds[idx + 1];
-
-        if (_ssls[idx + 1] == 0)
-        {
-            break;
-        }
+        _addrs[idx] = _addrs[idx + 1];
     }
+    _ssls[_numfds] = nullptr;
+    _pollfds[_numfds].fd = 0;
 
     if (ssl != nullptr)
     {
-        _numfds--;
         SSL_shutdown(ssl);
         SSL_free(ssl);
     }
@@ -434,9 +439,16 @@ int Connections::poll(int timeout)
     return ::poll(_pollfds, _numfds, timeout);
 }
 
-int Connections::addClientSSL(SSL *ssl, int sock)
+/* Index of the new connection, -1 if there is no room for it */
+int Connections::addClientSSL(SSL *ssl, int sock, SensorNetAddress *addr)
 {
     _mutex.lock();
+    if (_numfds >= _maxfds)
+    {
+        _mutex.unlock();
+        return -1;
+    }
+    _addrs[_numfds] = *addr;
     _pollfds[_numfds].fd = sock;
     _pollfds[_numfds].events = POLLIN;
     _ssls[_numfds] = ssl;
@@ -447,6 +459,22 @@ int Connections::addClientSSL(SSL *ssl, int sock)
     return rc;
 }
 
+/* Index of the connection to the client with this address, -1 if there is none */
+int Connections::getIndex(SensorNetAddress *addr)
+{
+    int index = -1;
+    _mutex.lock();
+    for (int i = POLL_SSL; i < _numfds && index < 0; i++)
+    {
+        if (_addrs[i].isMatch(addr))
+        {
+            index = i - POLL_SSL;
+        }
+    }
+    _mutex.unlock();
+    return index;
+}
+
 int Connections::getNumOfConnections(void)
 {
     return _numfds;
@@ -521,7 +549,13 @@ int SensorNetwork::unicast(const uint8_t *payload, uint16_t payloadLength, Senso
 #endif
 
     _mutex.lock();
-    SSL *ssl = _conns->getClientSSL(sendToAddr->getIndex());
+    int index = _conns->getIndex(sendToAddr);
+    if (index < 0)
+    {
+        _mutex.unlock();
+        return -1;
+    }
+    SSL *ssl = _conns->getClientSSL(index);
     int len = SSL_write(ssl, payload, payloadLength);
     int rc = SSL_get_error(ssl, len);
     if (rc < 0)
@@ -681,7 +715,16 @@ int SensorNetwork::read(uint8_t *buf, uint16_t bufLen)
         else
         {
             // add ssl & socket to Connections instance
-            int index = _conns->addClientSSL(ssl, client_fd);
+            int index = _conns->addClientSSL(ssl, client_fd, &client);
+            if (index < 0)
+            {
+                WRITELOG("No room for another DTLS connection.\n");
+                SSL_shutdown(ssl);
+                SSL_free(ssl);
+                ::close(client_fd);
+                _mutex.unlock();
+                return 0;
+            }
 
             // save SensorNetworkAddress of Client
             client.setIndex(index);
diff --git a/MQTTSNGateway/src/linux/dtls/SensorNetwork.h b/MQTTSNGateway/src/linux/dtls/SensorNetwork.h
index 0ef1753..b93c08d 100644
--- a/MQTTSNGateway/src/linux/dtls/SensorNetwork.h
+++ b/MQTTSNGateway/src/linux/dtls/SensorNetwork.h
@@ -96,7 +96,8 @@ public:
     void close(int index);
     int poll(int timeout);
     int addClientSock(int sock);
-    int addClientSSL(SSL *ssl, int sock);
+    int addClientSSL(SSL *ssl, int sock, SensorNetAddress *addr);
+    int getIndex(SensorNetAddress *addr);
     void setSockMulticast(int sock);
     void setSockUnicast(int sock);
     int getNumOfConnections(void);
@@ -114,6 +115,7 @@ public:
 private:
     pollfd *_pollfds;
     SSL **_ssls;
+    SensorNetAddress *_addrs;
     int _maxfds;
     int _numfds;
     Mutex _mutex;
-- 
2.43.0


From a3825440fc5bc23379a062ed1290526b719860d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:06:14 +0000
Subject: [PATCH 132/138] fix: a failed DTLS handshake leaves its connection
 and its socket behind

---
 .../src/linux/dtls/SensorNetwork.cpp          | 27 ++++++++++++++++---
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/MQTTSNGateway/src/linux/dtls/SensorNetwork.cpp b/MQTTSNGateway/src/linux/dtls/SensorNetwork.cpp
index b835867..eeb0526 100644
--- a/MQTTSNGateway/src/linux/dtls/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/dtls/SensorNetwork.cpp
@@ -667,6 +667,7 @@ int SensorNetwork::read(uint8_t *buf, uint16_t bufLen)
         {
             ERR_error_string_n(ERR_get_error(), errmsg, sizeof(errmsg));
             WRITELOG("Listen rc=%d %s\n", rc, errmsg);
+            SSL_free(ssl);
             _mutex.unlock();
             return 0;
         }
@@ -678,8 +679,11 @@ int SensorNetwork::read(uint8_t *buf, uint16_t bufLen)
         optval = 1;
         setsockopt(client_fd, SOL_SOCKET, SO_REUSEADDR, (const void*) &optval, sizeof(optval));
         // Bind to Dtls PortNo
-        bind(client_fd, (sockaddr*) &_serverAddr4, sizeof(sockaddr_in));
-        connect(client_fd, (sockaddr*) &client_addr, sizeof(sockaddr_in));
+        rc = bind(client_fd, (sockaddr*) &_serverAddr4, sizeof(sockaddr_in));
+        if (rc == 0)
+        {
+            rc = connect(client_fd, (sockaddr*) &client_addr, sizeof(sockaddr_in));
+        }
         client.setSockaddr4((sockaddr_in*) &client_addr.s4);
 #else
         // DTLS over IPv6
@@ -687,11 +691,26 @@ int SensorNetwork::read(uint8_t *buf, uint16_t bufLen)
         optval = 1;
         setsockopt(client_fd, SOL_SOCKET, SO_REUSEADDR, (const void*) &optval, sizeof(optval));
         // Bind to Dtls PortNo
-        bind(client_fd, (sockaddr*) &_serverAddr6, sizeof(sockaddr_in6));
-        connect(client_fd, (sockaddr*) &client_addr, sizeof(sockaddr_in6));
+        rc = bind(client_fd, (sockaddr*) &_serverAddr6, sizeof(sockaddr_in6));
+        if (rc == 0)
+        {
+            rc = connect(client_fd, (sockaddr*) &client_addr, sizeof(sockaddr_in6));
+        }
         client.setSockaddr6((sockaddr_in6*) &client_addr.s6);
 #endif
 
+        if (rc != 0)
+        {
+            WRITELOG("Can't open a socket for a DTLS connection. errno = %d\n", errno);
+            SSL_free(ssl);
+            if (client_fd >= 0)
+            {
+                ::close(client_fd);
+            }
+            _mutex.unlock();
+            return 0;
+        }
+
         BIO *cbio = SSL_get_rbio(ssl);
         BIO_set_fd(cbio, client_fd, BIO_NOCLOSE);
         BIO_ctrl(cbio, BIO_CTRL_DGRAM_SET_CONNECTED, 0, &client_addr);
-- 
2.43.0


From d218e5729418ed8a32a494e03a80effa751a2dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:06:15 +0000
Subject: [PATCH 133/138] fix: a lost DTLS connection is noticed and closed

---
 .../src/linux/dtls/SensorNetwork.cpp          | 29 +++++++++++++------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/MQTTSNGateway/src/linux/dtls/SensorNetwork.cpp b/MQTTSNGateway/src/linux/dtls/SensorNetwork.cpp
index eeb0526..2497fa8 100644
--- a/MQTTSNGateway/src/linux/dtls/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/dtls/SensorNetwork.cpp
@@ -557,10 +557,9 @@ int SensorNetwork::unicast(const uint8_t *payload, uint16_t payloadLength, Senso
     }
     SSL *ssl = _conns->getClientSSL(index);
     int len = SSL_write(ssl, payload, payloadLength);
-    int rc = SSL_get_error(ssl, len);
-    if (rc < 0)
+    if (len <= 0)
     {
-        D_NWSTACK("error %d in SensorNetwork::unicast\n", rc);
+        D_NWSTACK("error %d in SensorNetwork::unicast\n", SSL_get_error(ssl, len));
         len = -1;
     }
     _mutex.unlock();
@@ -774,12 +773,19 @@ int SensorNetwork::read(uint8_t *buf, uint16_t bufLen)
 
         for (int i = 0; i < numfds - POLL_SSL; i++)
         {
-            if (_conns->getEventClient(i) == POLLIN)
+            if (_conns->getEventClient(i) != 0)
             {
                 D_NWSTACK("SSL Packet RECV\n");
                 int dtls = getSendClient(i, &client);
 
-                if (dtls > 0)
+                if (dtls < 0)
+                {
+                    // The client is gone
+                    _conns->close(i);
+                    _mutex.unlock();
+                    return -1;
+                }
+                else
                 {
                     if (dtls == DTLS_CLIENTHELLO)
                     {
@@ -798,11 +804,16 @@ int SensorNetwork::read(uint8_t *buf, uint16_t bufLen)
                     // The packet is a MQTT-SN message
                     ssl = _conns->getClientSSL(i);
                     int len = SSL_read_ex(ssl, (void*) buf, (size_t) bufLen, &recvlen);
-                    if (SSL_get_error(ssl, len) < 0)
+                    if (len <= 0)
                     {
-                        D_NWSTACK("SSL RECV Error\n");
-                        _conns->close(i);
-                        recvlen = -1;
+                        int err = SSL_get_error(ssl, len);
+                        recvlen = 0;
+                        if (err != SSL_ERROR_WANT_READ && err != SSL_ERROR_WANT_WRITE)
+                        {
+                            D_NWSTACK("SSL RECV Error\n");
+                            _conns->close(i);
+                            recvlen = -1;
+                        }
                     }
                     else
                     {
-- 
2.43.0


From 62174b3d63fcb348493a648c1e9bbb4456a19df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:06:17 +0000
Subject: [PATCH 134/138] fix: DTLS packets to the group are not taken as from
 the last sender

---
 MQTTSNGateway/src/linux/dtls/SensorNetwork.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MQTTSNGateway/src/linux/dtls/SensorNetwork.cpp b/MQTTSNGateway/src/linux/dtls/SensorNetwork.cpp
index 2497fa8..b001384 100644
--- a/MQTTSNGateway/src/linux/dtls/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/dtls/SensorNetwork.cpp
@@ -1204,6 +1204,9 @@ int SensorNetwork::multicastRecv(uint8_t *buf, uint16_t len)
 {
     int rc = -1;
 
+    // who sends to the group is not authenticated, and so none of the clients
+    _senderAddr.clear();
+
 #ifndef DTLS6
     sockaddr_in sender;
     socklen_t addrlen = sizeof(sender);
-- 
2.43.0


From 8ccd8da8c950010ba91ff84cd82ff7dcf6c6fc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:06:18 +0000
Subject: [PATCH 135/138] fix: DTLS broadcasts go as far as configured

---
 MQTTSNGateway/src/linux/dtls/SensorNetwork.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/MQTTSNGateway/src/linux/dtls/SensorNetwork.cpp b/MQTTSNGateway/src/linux/dtls/SensorNetwork.cpp
index b001384..b94d31d 100644
--- a/MQTTSNGateway/src/linux/dtls/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/dtls/SensorNetwork.cpp
@@ -585,6 +585,7 @@ int SensorNetwork::broadcast(const uint8_t *payload, uint16_t payloadLength)
 
 #else
     sockaddr_in6 dest;
+    memset(&dest, 0, sizeof(dest));
     _multicastAddr.cpyAddr6(&dest);
 
     status = ::sendto(_conns->getSockUnicast(), payload, payloadLength, 0, (const sockaddr*) &dest, sizeof(dest));
@@ -1044,7 +1045,7 @@ int SensorNetwork::openV4(string *ipAddress, uint16_t multiPortNo, uint16_t uniP
         D_NWSTACK("Multicast IP_ADD_MEMBERSHIP in UDP4_6Port::openV4 error %d %s\n", errno, strerror(errno));
         return -1;
     }
-    if (setsockopt(sock, IPPROTO_IP, IP_MULTICAST_TTL, &ttl, sizeof(ttl)) < 0)
+    if (setsockopt(_conns->getSockUnicast(), IPPROTO_IP, IP_MULTICAST_TTL, &ttl, sizeof(ttl)) < 0)
     {
         D_NWSTACK("Multicast IP_MULTICAST_TTL in UDP4_6Port::openV4 error %d %s\n", errno, strerror(errno));
         return -1;
@@ -1056,7 +1057,7 @@ int SensorNetwork::openV4(string *ipAddress, uint16_t multiPortNo, uint16_t uniP
     optval = 0;
 #endif
 
-    if (setsockopt(sock, IPPROTO_IP, IP_MULTICAST_LOOP, (char*) &optval, sizeof(optval)) < 0)
+    if (setsockopt(_conns->getSockUnicast(), IPPROTO_IP, IP_MULTICAST_LOOP, (char*) &optval, sizeof(optval)) < 0)
     {
         D_NWSTACK("error %d IP_MULTICAST_LOOP in UDP4_6Port::openV4 %s\n", errno, strerror(errno));
         return -1;
@@ -1144,7 +1145,7 @@ int SensorNetwork::openV6(string *ipAddress, string *interface, uint16_t multiPo
     optval = 1;
     setsockopt(sock, SOL_SOCKET, SO_REUSEADDR, &optval, sizeof(optval));
 
-    if (setsockopt(sock, IPPROTO_IPV6, IPV6_MULTICAST_IF, &ifindex, sizeof(ifindex)) < 0)
+    if (setsockopt(_conns->getSockUnicast(), IPPROTO_IPV6, IPV6_MULTICAST_IF, &ifindex, sizeof(ifindex)) < 0)
     {
         D_NWSTACK("IPV6_MULTICAST_IF in SensorNetwork::openV6 error %s\n", strerror(errno));
         return -1;
@@ -1183,13 +1184,13 @@ int SensorNetwork::openV6(string *ipAddress, string *interface, uint16_t multiPo
     optval = 0;
 #endif
 
-    if (setsockopt(sock, IPPROTO_IPV6, IPV6_MULTICAST_LOOP, &optval, sizeof(optval)) < 0)
+    if (setsockopt(_conns->getSockUnicast(), IPPROTO_IPV6, IPV6_MULTICAST_LOOP, &optval, sizeof(optval)) < 0)
     {
         D_NWSTACK("IPV6_MULTICAST_LOOP in SensorNetwork::openV6 error %s\n", strerror(errno));
         return -1;
     }
 
-    if (setsockopt(sock, IPPROTO_IPV6, IPV6_MULTICAST_HOPS, &hops, sizeof(hops)) < 0)
+    if (setsockopt(_conns->getSockUnicast(), IPPROTO_IPV6, IPV6_MULTICAST_HOPS, &hops, sizeof(hops)) < 0)
     {
         D_NWSTACK("Multicast IPV6_MULTICAST_HOPS in SensorNetwork::openV6 error %s\n", strerror(errno));
         return -1;
-- 
2.43.0


From 23efd1e1d8b0c10787641ec686a93dc184af4a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:06:20 +0000
Subject: [PATCH 136/138] fix: DTLS addresses accept ports 1 to 65535 only

---
 MQTTSNGateway/src/linux/dtls/SensorNetwork.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/linux/dtls/SensorNetwork.cpp b/MQTTSNGateway/src/linux/dtls/SensorNetwork.cpp
index b94d31d..4d6eabd 100644
--- a/MQTTSNGateway/src/linux/dtls/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/dtls/SensorNetwork.cpp
@@ -161,7 +161,8 @@ int SensorNetAddress::setAddress(string *ipAddrPort)
 
     if (setIpAddress(&ip) == 0)
     {
-        if ((portNo = atoi(port.c_str())) != 0)
+        portNo = atoi(port.c_str());
+        if (portNo > 0 && portNo <= 65535)
         {
             _portNo = htons(portNo);
             return 0;
-- 
2.43.0


From 4d9310c4f740945dd368a6977ab7788933c8fd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:50:37 +0000
Subject: [PATCH 137/138] fix: a sleeping client of the aggregating gateway
 gets PINGRESP after the messages which wait for REGACK

---
 .../src/MQTTSNAggregateConnectionHandler.cpp  | 27 +++++++++++++------
 MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp  | 20 ++++++++++----
 2 files changed, 34 insertions(+), 13 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp b/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp
index 1212389..1b8f145 100644
--- a/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp
@@ -168,19 +168,30 @@ void MQTTSNAggregateConnectionHandler::handlePingreq(Client* client, MQTTSNPacke
     if ((client->isSleep() || client->isAwake()) && client->getClientSleepPacket())
     {
         sendStoredPublish(client);
+
+        /* handle this PINGREQ again after the stored PUBLISHes */
+        Event* evt = new Event();
+        evt->setClientRecvEvent(client, new MQTTSNPacket(*packet));
+        _gateway->getPacketEventQue()->post(evt);
+    }
+    else if (client->isAwake() && client->getWaitREGACKPacketList()->getCount() > 0 && !client->isHoldPingReqest())
+    {
+        /* a stored PUBLISH waits for REGACK. PINGRESP is sent after that */
         client->holdPingRequest();
     }
+    else
+    {
+        /* create and send PINGRESP to the PacketHandler */
+        client->resetPingRequest();
 
-    /* create and send PINGRESP to the PacketHandler */
-    client->resetPingRequest();
-
-    MQTTGWPacket* pingresp = new MQTTGWPacket();
+        MQTTGWPacket* pingresp = new MQTTGWPacket();
 
-    pingresp->setHeader(PINGRESP);
+        pingresp->setHeader(PINGRESP);
 
-    Event* evt = new Event();
-    evt->setBrokerRecvEvent(client, pingresp);
-    _gateway->getPacketEventQue()->post(evt);
+        Event* evt = new Event();
+        evt->setBrokerRecvEvent(client, pingresp);
+        _gateway->getPacketEventQue()->post(evt);
+    }
 }
 
 void MQTTSNAggregateConnectionHandler::sendStoredPublish(Client* client)
diff --git a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
index 3ba0e9b..2bced85 100644
--- a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
@@ -275,13 +275,23 @@ void MQTTSNPublishHandler::handleRegAck(Client* client, MQTTSNPacket* packet)
 
         if (client->isHoldPingReqest() && client->getWaitREGACKPacketList()->getCount() == 0)
         {
-            /* send PINGREQ to the broker */
             client->resetPingRequest();
-            MQTTGWPacket* pingreq = new MQTTGWPacket();
-            pingreq->setHeader(PINGREQ);
+            MQTTGWPacket* ping = new MQTTGWPacket();
             Event* evt = new Event();
-            evt->setBrokerSendEvent(client, pingreq);
-            _gateway->getBrokerSendQue()->post(evt);
+            if (client->isAggregated())
+            {
+                /* the gateway answers PINGREQ itself */
+                ping->setHeader(PINGRESP);
+                evt->setBrokerRecvEvent(client, ping);
+                _gateway->getPacketEventQue()->post(evt);
+            }
+            else
+            {
+                /* send PINGREQ to the broker */
+                ping->setHeader(PINGREQ);
+                evt->setBrokerSendEvent(client, ping);
+                _gateway->getBrokerSendQue()->post(evt);
+            }
         }
     }
 
-- 
2.43.0


From bf46ce40f84878010a192824b3c2f5ea2011c42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:50:37 +0000
Subject: [PATCH 138/138] fix: a filter the broker refuses is none of an
 aggregated client's

---
 MQTTSNGateway/src/MQTTGWSubscribeHandler.cpp  | 11 +++++++-
 MQTTSNGateway/src/MQTTSNGWAggregater.cpp      | 27 +++++++++++++++++++
 MQTTSNGateway/src/MQTTSNGWAggregater.h        |  3 +++
 MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp  | 24 +++++++++++++++++
 MQTTSNGateway/src/MQTTSNGWMessageIdTable.h    |  4 +++
 .../src/MQTTSNGWSubscribeHandler.cpp          |  2 +-
 6 files changed, 69 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTGWSubscribeHandler.cpp b/MQTTSNGateway/src/MQTTGWSubscribeHandler.cpp
index 9918f90..33c8cbe 100644
--- a/MQTTSNGateway/src/MQTTGWSubscribeHandler.cpp
+++ b/MQTTSNGateway/src/MQTTGWSubscribeHandler.cpp
@@ -82,9 +82,18 @@ void MQTTGWSubscribeHandler::handleAggregateSuback(Client* client, MQTTGWPacket*
 {
     uint16_t msgId = packet->getMsgId();
     uint16_t clientMsgId = 0;
-    Client* newClient = _gateway->getAdapterManager()->getAggregater()->convertClient(msgId, &clientMsgId);
+    uint16_t id;
+    uint8_t rc = 0;
+    Aggregater* aggregater = _gateway->getAdapterManager()->getAggregater();
+    string filter = aggregater->getFilter(msgId);
+    Client* newClient = aggregater->convertClient(msgId, &clientMsgId);
     if (newClient != nullptr)
     {
+        if (packet->getSUBACK(&id, &rc) != 0 && rc == 0x80)
+        {
+            /* the client has not subscribed it */
+            aggregater->subscribeRefused(newClient, filter);
+        }
         packet->setMsgId((int) clientMsgId);
         handleSuback(newClient, packet);
     }
diff --git a/MQTTSNGateway/src/MQTTSNGWAggregater.cpp b/MQTTSNGateway/src/MQTTSNGWAggregater.cpp
index 5d468b3..2196e8f 100644
--- a/MQTTSNGateway/src/MQTTSNGWAggregater.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWAggregater.cpp
@@ -94,6 +94,33 @@ AggregateTopicElement* Aggregater::addAggregateTopic(Topic* topic, Client* clien
     return _topicTable.add(topic, client);
 }
 
+void Aggregater::subscribe(Topic* topic, Client* client, uint16_t msgId)
+{
+    AggregateTopicElement* elm = _topicTable.find(topic);
+
+    if (elm == nullptr || elm->find(client) == nullptr)
+    {
+        _topicTable.add(topic, client);
+
+        /* the filter is removed again if the broker refuses it */
+        _msgIdTable.setFilter(msgId, *topic->getTopicName());
+    }
+}
+
+void Aggregater::subscribeRefused(Client* client, const string& filter)
+{
+    if (!filter.empty())
+    {
+        Topic topic = Topic(new string(filter), MQTTSN_TOPIC_TYPE_NORMAL); // topic deletes the name
+        _topicTable.erase(&topic, client);
+    }
+}
+
+string Aggregater::getFilter(uint16_t msgId)
+{
+    return _msgIdTable.getFilter(msgId);
+}
+
 void Aggregater::removeAggregateTopic(Topic* topic, Client* client)
 {
     _topicTable.erase(topic, client);
diff --git a/MQTTSNGateway/src/MQTTSNGWAggregater.h b/MQTTSNGateway/src/MQTTSNGWAggregater.h
index e6e95f8..d24c41c 100644
--- a/MQTTSNGateway/src/MQTTSNGWAggregater.h
+++ b/MQTTSNGateway/src/MQTTSNGWAggregater.h
@@ -59,6 +59,9 @@ public:
     bool isSubscribed(Topic* topic);
     AggregateTopicElement* addAggregateTopic(Topic* topic, Client* client);
 
+    void subscribe(Topic* topic, Client* client, uint16_t msgId);
+    void subscribeRefused(Client* client, const std::string& filter);
+    std::string getFilter(uint16_t msgId);
     void removeAggregateTopic(Topic* topic, Client* client);
     void removeAggregateAllTopic(Client* client);
     bool isActive(void);
diff --git a/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp b/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp
index 7b5848b..edd3fcb 100644
--- a/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp
@@ -195,6 +195,30 @@ uint16_t MessageIdTable::getMsgId(Client* client, uint16_t clientMsgId)
     return msgId;
 }
 
+void MessageIdTable::setFilter(uint16_t msgId, const std::string& filter)
+{
+    _mutex.lock();
+    MessageIdElement* p = find(msgId);
+    if (p != nullptr)
+    {
+        p->_filter = filter;
+    }
+    _mutex.unlock();
+}
+
+std::string MessageIdTable::getFilter(uint16_t msgId)
+{
+    std::string filter;
+    _mutex.lock();
+    MessageIdElement* p = find(msgId);
+    if (p != nullptr)
+    {
+        filter = p->_filter;
+    }
+    _mutex.unlock();
+    return filter;
+}
+
 /*===============================
  * Class MessageIdElement
  ===============================*/
diff --git a/MQTTSNGateway/src/MQTTSNGWMessageIdTable.h b/MQTTSNGateway/src/MQTTSNGWMessageIdTable.h
index 14ba350..af7434c 100644
--- a/MQTTSNGateway/src/MQTTSNGWMessageIdTable.h
+++ b/MQTTSNGateway/src/MQTTSNGWMessageIdTable.h
@@ -21,6 +21,7 @@
 #include "MQTTSNGWProcess.h"
 
 #include <stdint.h>
+#include <string>
 namespace MQTTSNGW
 {
 
@@ -42,6 +43,8 @@ public:
     Client* getClientMsgId(uint16_t msgId, uint16_t* clientMsgId);
     Client* findClientMsgId(uint16_t msgId, uint16_t* clientMsgId);
     uint16_t getMsgId(Client* client, uint16_t clientMsgId);
+    void setFilter(uint16_t msgId, const std::string& filter);
+    std::string getFilter(uint16_t msgId);
     void erase(uint16_t msgId);
     void clear(MessageIdElement* elm);
 private:
@@ -70,6 +73,7 @@ private:
     uint16_t _msgId;
     uint16_t _clientMsgId;
     Client* _client;
+    std::string _filter;  // topic filter which the SUBSCRIBE of this id has added
     MessageIdElement* _next;
     MessageIdElement* _prev;
 };
diff --git a/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp b/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
index ce25555..ae2f30b 100644
--- a/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
@@ -248,7 +248,7 @@ void MQTTSNSubscribeHandler::handleAggregateSubscribe(Client* client, MQTTSNPack
         string* topicName = new string(str.data, str.len); // topicName is delete by topic
         Topic topic = Topic(topicName, MQTTSN_TOPIC_TYPE_NORMAL);
 
-        _gateway->getAdapterManager()->getAggregater()->addAggregateTopic(&topic, client);
+        _gateway->getAdapterManager()->getAggregater()->subscribe(&topic, client, msgId);
 
         subscribe->setMsgId(msgId);
         Event* ev = new Event();
-- 
2.43.0

