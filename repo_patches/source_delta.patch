From 01f2f1dc8c674e5bce37b1b71d5245f940bc44ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:22 +0000
Subject: [PATCH 01/59] fix: match pending queries by ID, name and type with a
 consistent order

Answers were matched by ID and a 32-bit name hash only, so an answer for one
type (or a name with the same hash) was delivered to a client that asked for
another one; the hash difference also overflowed int, making the order of the
tree inconsistent.
---
 mcontext.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mcontext.c b/mcontext.c
index 52aa723..7fa47b3 100755
--- a/mcontext.c
+++ b/mcontext.c
@@ -124,8 +124,13 @@ static int ModuleContextCompare(const void *_1, const void *_2)
     if( Id_1 != Id_2 )
     {
         return Id_1 - Id_2;
+    } else if( One->HashValue != Two->HashValue ) {
+        /* The difference of two hash values doesn't fit in an int. */
+        return One->HashValue < Two->HashValue ? -1 : 1;
+    } else if( One->Type != Two->Type ) {
+        return (int)(One->Type) - (int)(Two->Type);
     } else {
-        return One->HashValue - Two->HashValue;
+        return strcmp(One->Domain, Two->Domain);
     }
 }
 
-- 
2.43.0


From 9d73f5caa672fa1e88602625f802a1bb872e99bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:48 +0000
Subject: [PATCH 02/59] fix: keep the DNS parser inside the message it was
 given

Names, record headers and RDATA lengths were trusted before being checked
against the length of the message, so a malformed packet made the parser read
(and in some cases loop or write) out of bounds, or act on the bytes a previous
message left in the buffer.
---
 dnsparser.c | 137 +++++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 129 insertions(+), 8 deletions(-)

diff --git a/dnsparser.c b/dnsparser.c
index 445e18c..8fb8b85 100755
--- a/dnsparser.c
+++ b/dnsparser.c
@@ -14,12 +14,28 @@ int DNSGetHostName(const char *DNSBody, int DNSBodyLength, const char *NameStart
     const char *NameItr = NameStart;
     int LabelsLength = 0;
     BOOL Redirected = FALSE;
-    int LabelCount = GET_8_BIT_U_INT(NameItr); /* The amount of characters of the next label */
+    int PointerCount = 0;
+    int LabelCount; /* The amount of characters of the next label */
+
+    #define NAME_OUT_OF_BODY(len) \
+        (DNSBody != NULL && (NameItr - DNSBody) + (len) > DNSBodyLength)
+
+    if( NAME_OUT_OF_BODY(1) )
+    {
+        return -1;
+    }
+    LabelCount = GET_8_BIT_U_INT(NameItr);
     while( LabelCount != 0 )
     {
         if( DNSIsLabelPointerStart(LabelCount) )
         {
             int LabelPointer = 0;
+
+            /* A name can't have more than 127 labels */
+            if( NAME_OUT_OF_BODY(2) || ++PointerCount > 127 )
+            {
+                return -1;
+            }
             if( Redirected == FALSE )
             {
                 LabelsLength += 2;
@@ -30,15 +46,14 @@ int DNSGetHostName(const char *DNSBody, int DNSBodyLength, const char *NameStart
                 break;
             }
             LabelPointer = DNSLabelGetPointer(NameItr);
-            if( LabelPointer > DNSBodyLength )
+            if( LabelPointer >= DNSBodyLength )
             {
                 return -1;
             }
-            NameItr = DNSBody + DNSLabelGetPointer(NameItr);
+            NameItr = DNSBody + LabelPointer;
         } else {
-            if( DNSBody != NULL &&
-                NameItr + LabelCount > DNSBody + DNSBodyLength
-                )
+            /* The label, and the length of the next one */
+            if( LabelCount > 63 || NAME_OUT_OF_BODY(1 + LabelCount + 1) )
             {
                 return -1;
             }
@@ -98,6 +113,8 @@ int DNSGetHostName(const char *DNSBody, int DNSBodyLength, const char *NameStart
         ++LabelsLength;
     }
 
+    #undef NAME_OUT_OF_BODY
+
     return LabelsLength;
 }
 
@@ -142,7 +159,11 @@ char *GetAllAnswers(char *DNSBody, int DNSBodyLength, char *Buffer, int BufferLe
     {
         if( i.TextifyData(&i, "   %t: %v\n", BufferItr, BufferLeft) <= 0 )
         {
-            sprintf(BufferItr, "   And %d More ...\n", ANACount);
+            snprintf(BufferItr,
+                     BufferLength - (BufferItr - Buffer),
+                     "   And %d More ...\n",
+                     ANACount
+                     );
 
             break;
         } else {
@@ -363,6 +384,72 @@ static DnsRecordPurpose DnsSimpleParserIterator_DeterminePurpose(
     return DNS_RECORD_PURPOSE_UNKNOWN;
 }
 
+/* Whether the record at current position is totally inside the message. */
+static BOOL DnsSimpleParserIterator_IsIntact(const DnsSimpleParserIterator *i)
+{
+    char Name[256];
+
+    const char *Body = i->Parser->RawDns;
+    int BodyLength = i->Parser->RawDnsLength;
+
+    const char *Fields;
+    int LeftLength;
+    int DataLength;
+    int NameLength = DNSGetHostName(Body,
+                                    BodyLength,
+                                    i->CurrentPosition,
+                                    Name,
+                                    sizeof(Name)
+                                    );
+
+    if( NameLength < 0 )
+    {
+        return FALSE;
+    }
+
+    Fields = i->CurrentPosition + NameLength;
+    LeftLength = BodyLength - (Fields - Body);
+
+    if( i->Purpose == DNS_RECORD_PURPOSE_QUESTION )
+    {
+        return LeftLength >= 4;
+    }
+
+    if( LeftLength < 10 )
+    {
+        return FALSE;
+    }
+
+    DataLength = GET_16_BIT_U_INT(Fields + 8);
+    if( LeftLength - 10 < DataLength )
+    {
+        return FALSE;
+    }
+
+    switch( GET_16_BIT_U_INT(Fields) )
+    {
+    case DNS_TYPE_A:
+        return GET_16_BIT_U_INT(Fields + 2) != DNS_CLASS_IN || DataLength == 4;
+
+    case DNS_TYPE_AAAA:
+        return GET_16_BIT_U_INT(Fields + 2) != DNS_CLASS_IN || DataLength == 16;
+
+    case DNS_TYPE_CNAME:
+    case DNS_TYPE_PTR:
+    case DNS_TYPE_NS:
+        return DNSGetHostName(Body,
+                              BodyLength,
+                              Fields + 10,
+                              Name,
+                              sizeof(Name)
+                              )
+               == DataLength;
+
+    default:
+        return TRUE;
+    }
+}
+
 static char *DnsSimpleParserIterator_Next(DnsSimpleParserIterator *i)
 {
     if( i->CurrentPosition == NULL )
@@ -413,6 +500,14 @@ static char *DnsSimpleParserIterator_Next(DnsSimpleParserIterator *i)
 
     /* Update record informations */
     i->Purpose =  DnsSimpleParserIterator_DeterminePurpose(i, i->RecordPosition);
+
+    if( !DnsSimpleParserIterator_IsIntact(i) )
+    {
+        i->CurrentPosition = NULL;
+        i->RecordPosition = 0;
+        return NULL;
+    }
+
     i->Type = DNSGetRecordType(i->CurrentPosition);
     i->Klass = DNSGetRecordClass(i->CurrentPosition);
 
@@ -503,6 +598,11 @@ static int DnsSimpleParserIterator_Parse16Uint(DnsSimpleParserIterator *i,
 
     BOOL IsToCache = Format == NULL;
 
+    if( *DataLength < 2 )
+    {
+        return -1;
+    }
+
     if( IsToCache )
     {
         if( 2 > BufferLength )
@@ -570,6 +670,11 @@ static int DnsSimpleParserIterator_Parse32Uint(DnsSimpleParserIterator *i,
 
     BOOL IsToCache = Format == NULL;
 
+    if( *DataLength < 4 )
+    {
+        return -1;
+    }
+
     if( IsToCache )
     {
         if( 4 > BufferLength )
@@ -932,6 +1037,12 @@ static int DnsSimpleParserIterator_ParseData(DnsSimpleParserIterator *i,
         }
     }
 
+    if( pp[j].Preface != NULL || LeftDataLength < 0 )
+    {
+        /* Fields missing, or beyond the data */
+        return -1;
+    }
+
     return BufferItr - Buffer;
 }
 
@@ -999,7 +1110,7 @@ static int DNSRRGetString(const char *Data,
     {
         int n = GET_8_BIT_U_INT(DataItr);
 
-        if( n >= BufferLeft )
+        if( n >= BufferLeft || DataItr + 1 + n > Data + DataLength )
         {
             return -1;
         }
@@ -1050,6 +1161,11 @@ static int DnsSimpleParserIterator_ParseTxt(DnsSimpleParserIterator *i,
     if( i->DataLength > sizeof(Example) )
     {
         Resulting = SafeMalloc(i->DataLength);
+        if( Resulting == NULL )
+        {
+            *Buffer = '\0';
+            return -1;
+        }
     } else {
         Resulting = Example;
     }
@@ -1097,6 +1213,11 @@ static int DnsSimpleParserIterator_ParseRaw(DnsSimpleParserIterator *i,
         return -1;
     }
 
+    if( strlen(Format) + 1 > BufferLength )
+    {
+        return -1;
+    }
+
     strcpy(Buffer, Format);
 
     if( TypeName == DNS_TYPENAME_UNKNOWN )
-- 
2.43.0


From 5c3be9f00f401326daa08a562d0d0a76789729df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:48 +0000
Subject: [PATCH 03/59] fix: drop messages whose header can't be filled

The return value of IHeader_Fill() was ignored everywhere, so a message that
is not a parsable query (or answer) was processed with stale fields of an earlier
message. The TCP module also passed the length of the last chunk received
instead of the length of the whole message.
---
 iheader.c     | 14 ++++++++++++--
 tcpfrontend.c | 26 +++++++++++++++-----------
 tcpm.c        | 23 ++++++++++++++---------
 udpfrontend.c | 23 ++++++++++++++---------
 udpm.c        | 23 ++++++++++++++---------
 5 files changed, 69 insertions(+), 40 deletions(-)

diff --git a/iheader.c b/iheader.c
index 497cd01..b06b62f 100755
--- a/iheader.c
+++ b/iheader.c
@@ -45,7 +45,17 @@ int IHeader_Fill(IHeader *h,
         return -36;
     }
 
-    while( i.Next(&i) != NULL )
+    if( p.QuestionCount(&p) != 1 )
+    {
+        return -39;
+    }
+
+    if( i.Next(&i) == NULL )
+    {
+        return -41;
+    }
+
+    do
     {
         switch( i.Purpose )
         {
@@ -75,7 +85,7 @@ int IHeader_Fill(IHeader *h,
         default:
             break;
         }
-    }
+    } while( i.Next(&i) != NULL );
 
     h->ReturnHeader = ReturnHeader;
 
diff --git a/tcpfrontend.c b/tcpfrontend.c
index c8a0693..8cc2868 100644
--- a/tcpfrontend.c
+++ b/tcpfrontend.c
@@ -91,17 +91,21 @@ TcpFrontend_Work(void *Unused)
                 RecvState = recv(sock_c, Entity, TCPLength, 0);
                 if( RecvState == TCPLength )
                 {
-                    IHeader_Fill(Header,
-                                 FALSE,
-                                 Entity,
-                                 RecvState,
-                                 NULL,
-                                 sock_c,
-                                 ClientAddr->family,
-                                 Agent
-                                 );
-
-                    MMgr_Send(ReceiveBuffer, SOCKET_CONTEXT_LENGTH);
+                    if( IHeader_Fill(Header,
+                                     FALSE,
+                                     Entity,
+                                     RecvState,
+                                     NULL,
+                                     sock_c,
+                                     ClientAddr->family,
+                                     Agent
+                                     )
+                        == 0 )
+                    {
+                        MMgr_Send(ReceiveBuffer, SOCKET_CONTEXT_LENGTH);
+                    } else {
+                        INFO("Invalid data received from TCP client %s.\n", Agent);
+                    }
 
                     if( IsNewConnected )
                     {
diff --git a/tcpm.c b/tcpm.c
index d0d4ed7..3958c2b 100755
--- a/tcpm.c
+++ b/tcpm.c
@@ -674,15 +674,20 @@ TcpM_Works(TcpM *m)
             TcpCtx->MsgCtx = NULL;
             p2->Add(p2, s, TcpCtx, sizeof(TcpContext));
 
-            IHeader_Fill(Header,
-                         FALSE,
-                         Entity,
-                         State,
-                         NULL,
-                         INVALID_SOCKET,
-                         AF_UNSPEC,
-                         NULL
-                         );
+            if( IHeader_Fill(Header,
+                             FALSE,
+                             Entity,
+                             PartialData - Entity,
+                             NULL,
+                             INVALID_SOCKET,
+                             AF_UNSPEC,
+                             NULL
+                             )
+                != 0 )
+            {
+                INFO("Invalid data received from TCP server.\n");
+                continue;
+            }
 
             switch( IPMiscMapping_Process(MsgCtx) )
             {
diff --git a/udpfrontend.c b/udpfrontend.c
index b4ef03e..28f44de 100755
--- a/udpfrontend.c
+++ b/udpfrontend.c
@@ -90,15 +90,20 @@ UdpFrontend_Work(void *Unused)
             continue;
         }
 
-        IHeader_Fill(Header,
-                     FALSE,
-                     Entity,
-                     RecvState,
-                     IncomingAddress,
-                     sock,
-                     *f,
-                     Agent
-                     );
+        if( IHeader_Fill(Header,
+                         FALSE,
+                         Entity,
+                         RecvState,
+                         IncomingAddress,
+                         sock,
+                         *f,
+                         Agent
+                         )
+            != 0 )
+        {
+            INFO("Invalid data received from UDP client %s.\n", Agent);
+            continue;
+        }
 
         MMgr_Send(ReceiveBuffer, SOCKET_CONTEXT_LENGTH);
     }
diff --git a/udpm.c b/udpm.c
index 627f56b..c7755b1 100755
--- a/udpm.c
+++ b/udpm.c
@@ -189,15 +189,20 @@ UdpM_Works(UdpM *m)
         m->CountOfTimeout = 0;
 
         /* Fill IHeader */
-        IHeader_Fill(Header,
-                     FALSE,
-                     Entity,
-                     RecvState,
-                     NULL,
-                     INVALID_SOCKET,
-                     AF_UNSPEC,
-                     NULL
-                     );
+        if( IHeader_Fill(Header,
+                         FALSE,
+                         Entity,
+                         RecvState,
+                         NULL,
+                         INVALID_SOCKET,
+                         AF_UNSPEC,
+                         NULL
+                         )
+            != 0 )
+        {
+            INFO("Invalid data received from UDP server.\n");
+            continue;
+        }
 
         switch( IPMiscMapping_Process(MsgCtx) )
         {
-- 
2.43.0


From 2fac204066af0585f08f68bdea6b5d05012963ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:41 +0000
Subject: [PATCH 04/59] fix: don't misread label bytes as pointers or string
 ends

DNSCopyLable() took any byte >= 0xC0 inside a label for a compression pointer
(endless loop on crafted or UTF-8 names), and a NUL inside a label cut the name.
---
 dnsparser.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/dnsparser.c b/dnsparser.c
index 8fb8b85..5591700 100755
--- a/dnsparser.c
+++ b/dnsparser.c
@@ -58,6 +58,12 @@ int DNSGetHostName(const char *DNSBody, int DNSBodyLength, const char *NameStart
                 return -1;
             }
 
+            /* Such a name can't be expressed by a string */
+            if( memchr(NameItr + 1, '\0', LabelCount) != NULL )
+            {
+                return -1;
+            }
+
             if( buffer != NULL )
             {
                 if( BufferItr + LabelCount + 1 - buffer <= BufferLength )
@@ -190,12 +196,15 @@ int DNSCopyLable(const char *DNSBody, char *here, const char *src)
         {
             src = DNSBody + DNSLabelGetPointer(src);
         } else {
-            ++FullLength;
+            /* Bytes of a label can be of any value, copy it as a whole */
+            int Length = 1 + GET_8_BIT_U_INT(src);
+
+            FullLength += Length;
 
             if( here != NULL )
             {
-                *here = *src;
-                ++here;
+                memcpy(here, src, Length);
+                here += Length;
             }
 
             if( *src == '\0' )
@@ -203,7 +212,7 @@ int DNSCopyLable(const char *DNSBody, char *here, const char *src)
                 break;
             }
 
-            ++src;
+            src += Length;
         }
     }
 
-- 
2.43.0


From b398f8c511405fa51d022e72273644b59c050e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:41 +0000
Subject: [PATCH 05/59] fix: don't generate beyond the buffer

Copying the source message and raw record data wasn't limited by the space
left: a client query of more than half of the buffer overflowed it.
---
 dnsgenerator.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/dnsgenerator.c b/dnsgenerator.c
index 7089b99..6231848 100755
--- a/dnsgenerator.c
+++ b/dnsgenerator.c
@@ -576,6 +576,11 @@ static int DnsGenerator_RawData(DnsGenerator *g,
         return -5;
     }
 
+    if( LEFT_LENGTH(g) < DataLength )
+    {
+        return -6;
+    }
+
     memcpy(g->Itr, Data, DataLength);
     g->Itr += DataLength;
 
@@ -909,6 +914,11 @@ int DnsGenerator_Init(DnsGenerator *g,
             }
         }
 
+        if( SourceLength > BufferLength )
+        {
+            return -3;
+        }
+
         memmove(g->Buffer, CopyFrom, SourceLength);
         g->Itr = g->Buffer + SourceLength;
 
@@ -934,6 +944,11 @@ int DnsGenerator_Init(DnsGenerator *g,
         }
 
     } else {
+        if( BufferLength < DNS_HEADER_LENGTH )
+        {
+            return -4;
+        }
+
         g->Itr = g->Buffer + DNS_HEADER_LENGTH;
         g->NumberOfRecords = g->Buffer + 4;
 
-- 
2.43.0


From 142791b3ba9449010d6b7700b9ae09751d1cf335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:41 +0000
Subject: [PATCH 06/59] fix: endless loop on adding EDNS to a query having
 other additional records

---
 iheader.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/iheader.c b/iheader.c
index b06b62f..7c52565 100755
--- a/iheader.c
+++ b/iheader.c
@@ -142,9 +142,16 @@ int MsgContext_AddFakeEdns(MsgContext *MsgCtx, int BufferLength)
         return -125;
     }
 
-    while( g.NextPurpose(&g) != DNS_RECORD_PURPOSE_ADDITIONAL );
+    /* Otherwise, already there */
+    if( DNSGetAdditionalCount(IHEADER_TAIL(h)) == 0 )
+    {
+        while( g.NextPurpose(&g) != DNS_RECORD_PURPOSE_ADDITIONAL );
+    }
 
-    g.EDns(&g, 1280);
+    if( g.EDns(&g, 1280) != 0 )
+    {
+        return -126;
+    }
 
     h->EntityLength = g.Length(&g);
     h->EDNSEnabled = TRUE;
-- 
2.43.0


From 5028188efa59cc9279b40699df643854cda2f624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:41 +0000
Subject: [PATCH 07/59] fix: don't answer from cache with a garbled, partial
 record set

---
 dnscache.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dnscache.c b/dnscache.c
index 288d9f5..af315cb 100755
--- a/dnscache.c
+++ b/dnscache.c
@@ -741,10 +741,9 @@ static int DNSCache_GetRawRecordsFromCache(__in    const char *Name,
                         );
             if( iRet != 0 )
             {
-                if( Ret == 0 )
-                {
-                    INFO("Partial cache used for: %s\n", Name_Type_Class);
-                }
+                /* A partial set of records is not an answer */
+                INFO("Cache doesn't fit for: %s\n", Name_Type_Class);
+                Ret = iRet;
                 break;
             }
             Ret = iRet;
-- 
2.43.0


From e767a4fa610f7e6ace09a76c878551ccdbedec6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:41 +0000
Subject: [PATCH 08/59] fix: keep on logging if the log file couldn't be
 renamed

Otherwise, the closed file is written and closed again.
---
 logs.c | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/logs.c b/logs.c
index 11af225..cf42b5e 100755
--- a/logs.c
+++ b/logs.c
@@ -95,6 +95,7 @@ static void CheckLength(void)
         char FileRenamed[MAX_PATH_BUFFER + 8];
 
         fclose(LogFile);
+        LogFile = NULL;
 
         while( TRUE )
         {
@@ -111,28 +112,23 @@ static void CheckLength(void)
                 >= sizeof(FileRenamed)
             )
             {
-                return;
+                break;
             }
 
             if( FileIsReadable(FileRenamed) == FALSE )
             {
                 /* If path to `FileRenamed' does not exist */
-                if( rename(FilePath, FileRenamed) != 0 )
+                if( rename(FilePath, FileRenamed) == 0 )
                 {
-                    return;
+                    CurrentLength = 0;
                 }
 
-                LogFile = fopen(FilePath, "w");
-                if( LogFile == NULL )
-                {
-                    return;
-                }
-
-                CurrentLength = 0;
-
                 break;
             }
         }
+
+        /* If it couldn't be renamed, go on with the old one */
+        LogFile = fopen(FilePath, CurrentLength == 0 ? "w" : "a");
     }
 }
 
@@ -154,7 +150,10 @@ void Log_Print(const char *Type, const char *format, ...)
     if( LogFile != NULL )
     {
         CheckLength();
+    }
 
+    if( LogFile != NULL )
+    {
         CurrentLength += fprintf(LogFile,
                                  Type == NULL ? "%s " : "%s [%s] ",
                                  DateAndTime,
-- 
2.43.0


From 33c7cf70153c6f1ff3b9331cc73801d42995152f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:41 +0000
Subject: [PATCH 09/59] fix: receive TCP messages and SOCKS replies whatever
 way the stream is split

---
 tcpm.c | 65 +++++++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 44 insertions(+), 21 deletions(-)

diff --git a/tcpm.c b/tcpm.c
index 3958c2b..ea64534 100755
--- a/tcpm.c
+++ b/tcpm.c
@@ -284,6 +284,27 @@ static int TcpM_RecvWrapper(SOCKET Sock, char *Buffer, int BufferSize)
     return Recvlength;
 }
 
+/* A TCP stream can be split anywhere.
+   `Length', or the length received before it failed, or the error returned. */
+static int TcpM_RecvAll(SOCKET Sock, char *Buffer, int Length)
+{
+    int Received = 0;
+
+    while( Received < Length )
+    {
+        int State = TcpM_RecvWrapper(Sock, Buffer + Received, Length - Received);
+
+        if( State <= 0 )
+        {
+            return Received > 0 ? Received : State;
+        }
+
+        Received += State;
+    }
+
+    return Received;
+}
+
 static int TcpM_ProxyPreparation(SOCKET Sock,
                                  const struct sockaddr  *NestedAddress,
                                  sa_family_t Family
@@ -293,7 +314,8 @@ static int TcpM_ProxyPreparation(SOCKET Sock,
     char *AddressString = AddressInfos + 5;
     char NumberOfCharacter;
     unsigned short Port;
-    char RecvBuffer[16];
+    char RecvBuffer[255 + 2];
+    int LeftLength;
 
     DEBUG("Negotiating with TCP proxy ...\n");
 
@@ -303,7 +325,7 @@ static int TcpM_ProxyPreparation(SOCKET Sock,
         return -1;
     }
 
-    if( TcpM_RecvWrapper(Sock, RecvBuffer, 2) != 2 )
+    if( TcpM_RecvAll(Sock, RecvBuffer, 2) != 2 )
     {
         ERRORMSG("Cannot negotiate with TCP proxy.\n");
         return -2;
@@ -345,7 +367,7 @@ static int TcpM_ProxyPreparation(SOCKET Sock,
         return -4;
     }
 
-    if( TcpM_RecvWrapper(Sock, RecvBuffer, 4) != 4 )
+    if( TcpM_RecvAll(Sock, RecvBuffer, 4) != 4 )
     {
         ERRORMSG("Proxy Cannot communicate with TCP proxy.\n");
         return -9;
@@ -360,23 +382,32 @@ static int TcpM_ProxyPreparation(SOCKET Sock,
     switch( RecvBuffer[3] )
     {
         case 0x01:
-            NumberOfCharacter = 6;
+            LeftLength = 6;
             break;
 
         case 0x03:
-            TcpM_RecvWrapper(Sock, &NumberOfCharacter, 1);
-            NumberOfCharacter += 2;
+            if( TcpM_RecvAll(Sock, RecvBuffer, 1) != 1 )
+            {
+                ERRORMSG("Proxy Cannot communicate with TCP proxy.\n");
+                return -12;
+            }
+            LeftLength = (unsigned char)RecvBuffer[0] + 2;
             break;
 
         case 0x04:
-            NumberOfCharacter = 18;
+            LeftLength = 18;
             break;
 
         default:
             ERRORMSG("Proxy Cannot communicate with TCP proxy.\n");
             return -11;
     }
-    ClearTCPSocketBuffer(Sock, NumberOfCharacter);
+
+    if( TcpM_RecvAll(Sock, RecvBuffer, LeftLength) != LeftLength )
+    {
+        ERRORMSG("Proxy Cannot communicate with TCP proxy.\n");
+        return -13;
+    }
 
     INFO("Proxy has Connected to TCP server.\n");
 
@@ -617,11 +648,10 @@ TcpM_Works(TcpM *m)
             int State;
             uint16_t TCPLength;
             SocketPuller *p2;
-            char *PartialData;
 
             p->Del(p, s);
 
-            State = TcpM_RecvWrapper(s, (char *)&TCPLength, 2);
+            State = TcpM_RecvAll(s, (char *)&TCPLength, 2);
             if( State != 2 )
             {
                 if( State < 1 )
@@ -653,18 +683,11 @@ TcpM_Works(TcpM *m)
                 continue;
             }
 
-            PartialData = Entity;
-            do
-            {
-                State = TcpM_RecvWrapper(s, PartialData, TCPLength);
-                PartialData += State;
-                TCPLength -= State;
-            } while ( State > 0 && TCPLength > 0 );
-
-            if( TCPLength != 0 )
+            State = TcpM_RecvAll(s, Entity, TCPLength);
+            if( State <= 0 || State != TCPLength )
             {
                 WARNING("TCP %s received bad data, len: %d.\n",
-                        m->SocksProxies != NULL ? "proxy" : "server", PartialData - Entity);
+                        m->SocksProxies != NULL ? "proxy" : "server", State);
                 CLOSE_SOCKET(s);
                 continue;
             }
@@ -677,7 +700,7 @@ TcpM_Works(TcpM *m)
             if( IHeader_Fill(Header,
                              FALSE,
                              Entity,
-                             PartialData - Entity,
+                             State,
                              NULL,
                              INVALID_SOCKET,
                              AF_UNSPEC,
-- 
2.43.0


From c2dff1995471e881ed4da620a5e9472ad42f85f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:41 +0000
Subject: [PATCH 10/59] fix: length of the answer passed to the combination of
 an alias

---
 hosts.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hosts.c b/hosts.c
index 2da3fed..a88bf58 100755
--- a/hosts.c
+++ b/hosts.c
@@ -274,7 +274,7 @@ Hosts_SocketLoop(void *Unused)
             if( HostsUtils_CombineRecursedResponse((MsgContext *)InnerBuffer,
                                                    SOCKET_CONTEXT_LENGTH,
                                                    OuterEntity,
-                                                   State,
+                                                   State - (int)sizeof(IHeader),
                                                    OuterHeader->Domain
                                                    )
                 != 0 )
-- 
2.43.0


From 9f9d6020aeb88a11f40abbced1ab27ec1756c2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:19 +0000
Subject: [PATCH 11/59] fix: don't look behind the terminator of the root
 domain

---
 stringchunk.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stringchunk.c b/stringchunk.c
index ddc6e8c..8b0e05c 100755
--- a/stringchunk.c
+++ b/stringchunk.c
@@ -390,7 +390,8 @@ BOOL StringChunk_Domain_Match_NoWildCard(StringChunk    *dl,
         return TRUE;
     }
 
-    Domain = strchr(Domain + 1, '.');
+    /* Nothing lies behind the terminator of an empty (root) domain */
+    Domain = *Domain == '\0' ? NULL : strchr(Domain + 1, '.');
 
     while( Domain != NULL )
     {
-- 
2.43.0


From 894f446ef6254580a62b841aef38b0aa87aaeca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:19 +0000
Subject: [PATCH 12/59] fix: compare disabled domains regardless of letter case

---
 filter.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/filter.c b/filter.c
index 26d56c4..8951bcc 100755
--- a/filter.c
+++ b/filter.c
@@ -4,6 +4,7 @@
 #include "stringchunk.h"
 #include "bst.h"
 #include "common.h"
+#include "utils.h"
 #include "logs.h"
 #include "readline.h"
 #include "domainstatistic.h"
@@ -55,6 +56,9 @@ static int LoadDomainsFromList(StringChunk *List, StringList *Domains)
         return -1;
     }
 
+    /* Queried domains are compared in lower case */
+    Domains->LowercaseAll(Domains);
+
     Str = sli.Next(&sli);
     while( Str != NULL )
     {
@@ -112,6 +116,7 @@ static int LoadDomainsFromFile(StringChunk *List, const char *FilePath)
 
         if( Status == READ_DONE )
         {
+            StrToLower(Domain);
             StringChunk_Add_Domain(List, Domain, NULL, 0);
         } else {
             ReadLine_GoToNextLine(fp);
-- 
2.43.0


From 72010a3884f290913ad8e81d021c5ee0e347c909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:50 +0000
Subject: [PATCH 13/59] fix: return the last listed one of several addresses of
 a host

---
 hostscontainer.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hostscontainer.c b/hostscontainer.c
index 1a986cc..c203e19 100755
--- a/hostscontainer.c
+++ b/hostscontainer.c
@@ -256,9 +256,9 @@ OUT_SEARCH:
             return -212;
         }
     } else {
-        n.Next = Exist->Next;
+        /* Last in, first out: the new one takes the place of the head */
         s = Container->Table.Add(&(Container->Table),
-                                 &n,
+                                 Exist,
                                  sizeof(TableNode),
                                  TRUE
                                  );
@@ -267,7 +267,8 @@ OUT_SEARCH:
             return -213;
         }
 
-        Exist->Next = s;
+        n.Next = s;
+        *Exist = n;
     }
 
     return 0;
-- 
2.43.0


From da6c68ab55df3999080e1cf067aa3b828a1e5d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:52 +0000
Subject: [PATCH 14/59] fix: prefer host addresses to CName redirections as
 documented

---
 hostsutils.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/hostsutils.c b/hostsutils.c
index fc43739..30707f6 100755
--- a/hostsutils.c
+++ b/hostsutils.c
@@ -129,13 +129,6 @@ HostsUtilsTryResult HostsUtils_Try(MsgContext *MsgCtx,
     const char  *MatchState;
     HostsRecordType Type;
 
-    if( Header->Type != DNS_TYPE_CNAME &&
-        HostsUtils_TypeExisting(Container, Header->Domain, HOSTS_TYPE_CNAME)
-        )
-    {
-        return HOSTSUTILS_TRY_RECURSED;
-    }
-
     switch( Header->Type )
     {
     case DNS_TYPE_CNAME:
@@ -180,10 +173,20 @@ HostsUtilsTryResult HostsUtils_Try(MsgContext *MsgCtx,
         break;
 
     default:
-        return HOSTSUTILS_TRY_NONE;
+        Type = HOSTS_TYPE_UNKNOWN;
+        MatchState = NULL;
         break;
     }
 
+    /* A CName redirection has a lower priority than addresses */
+    if( MatchState == NULL &&
+        Header->Type != DNS_TYPE_CNAME &&
+        HostsUtils_TypeExisting(Container, Header->Domain, HOSTS_TYPE_CNAME)
+        )
+    {
+        return HOSTSUTILS_TRY_RECURSED;
+    }
+
     if( MatchState != NULL )
     {
         DnsGenerator g;
-- 
2.43.0


From d72b857ae1436ce81e7fccbd6927e4783e867e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:22 +0000
Subject: [PATCH 15/59] fix: excluded hosts don't block IPv6 queries

---
 hosts.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hosts.c b/hosts.c
index a88bf58..f809d17 100755
--- a/hosts.c
+++ b/hosts.c
@@ -45,6 +45,11 @@ HostsUtilsTryResult Hosts_Try(MsgContext *MsgCtx, int BufferLength)
     HostsUtilsTryResult ret;
     IHeader *Header = (IHeader *)MsgCtx;
 
+    if( Hosts_TypeExisting(Header->Domain, HOSTS_TYPE_EXCLUEDE) )
+    {
+        return HOSTSUTILS_TRY_NONE;
+    }
+
     if( BlockIpv6WhenIpv4Exists )
     {
         if( Header->Type == DNS_TYPE_AAAA &&
@@ -58,11 +63,6 @@ HostsUtilsTryResult Hosts_Try(MsgContext *MsgCtx, int BufferLength)
         }
     }
 
-    if( Hosts_TypeExisting(Header->Domain, HOSTS_TYPE_EXCLUEDE) )
-    {
-        return HOSTSUTILS_TRY_NONE;
-    }
-
     ret = Hosts_Try_Inner(MsgCtx, BufferLength);
 
     if( ret == HOSTSUTILS_TRY_RECURSED )
-- 
2.43.0


From b0718d9be4a08c49c4de75f20a34abc969294588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:30 +0000
Subject: [PATCH 16/59] fix: compare hosts regardless of letter case

---
 hostscontainer.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hostscontainer.c b/hostscontainer.c
index c203e19..49fd1da 100755
--- a/hostscontainer.c
+++ b/hostscontainer.c
@@ -3,6 +3,7 @@
 #include "ipchunk.h"
 #include "hostscontainer.h"
 #include "logs.h"
+#include "utils.h"
 
 typedef struct _TableNode TableNode;
 
@@ -405,6 +406,9 @@ PUBFUNC HostsRecordType HostsContainer_Load(HostsContainer *Container,
         return HOSTS_TYPE_UNKNOWN;
     }
 
+    /* Queried domains are compared in lower case */
+    StrToLower(Domain);
+
     return HostsContainer_Add(Container, IPOrCName, Domain);
 }
 
-- 
2.43.0


From 859c7a369a736ccb7b29055862bd920fcf25a59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:00 +0000
Subject: [PATCH 17/59] fix: don't change owner names while compressing

---
 dnscache.c     |  2 +-
 dnsgenerator.c | 47 +++++++++++++++++++++++++++++++++++------------
 hostsutils.c   | 23 +++++++++++++++++------
 3 files changed, 53 insertions(+), 19 deletions(-)

diff --git a/dnscache.c b/dnscache.c
index af315cb..c0046c4 100755
--- a/dnscache.c
+++ b/dnscache.c
@@ -852,7 +852,7 @@ static int DNSCache_GetByQuestion(__inout DnsGenerator *g,
                 NewTTL = Node->TTL - (CurrentTime - Node->TimeAdded);
             }
 
-            if( g->CName(g, "a", CName, NewTTL) != 0 )
+            if( g->CName(g, Name, CName, NewTTL) != 0 )
             {
                 RWLock_UnRLock(CacheLock);
                 return -5;
diff --git a/dnsgenerator.c b/dnsgenerator.c
index 6231848..9e277b1 100755
--- a/dnsgenerator.c
+++ b/dnsgenerator.c
@@ -1,4 +1,5 @@
 #include <stdio.h>
+#include <ctype.h>
 #include "dnsgenerator.h"
 #include "utils.h"
 #include "dnsparser.h"
@@ -30,6 +31,22 @@ char *DNSLabelizedName(__inout char *Origin, __in size_t OriginSpaceLength){
     return Origin + 1;
 }
 
+/* Regardless of letter case, uncompressed labels only */
+static BOOL IsSameLabels(const char *l1, const char *l2, int Length)
+{
+    int n;
+
+    for( n = 0; n != Length; ++n )
+    {
+        if( tolower((unsigned char)l1[n]) != tolower((unsigned char)l2[n]) )
+        {
+            return FALSE;
+        }
+    }
+
+    return TRUE;
+}
+
 /* Compressed length returned */
 int DNSCompress(__inout char *DNSBody, __in int DNSBodyLength)
 {
@@ -60,6 +77,7 @@ int DNSCompress(__inout char *DNSBody, __in int DNSBodyLength)
            i.Purpose == DNS_RECORD_PURPOSE_ANSWER
            )
     {
+        int NameLength;
         int LengthDifference;
 
         if( i.Klass != DNS_CLASS_IN )
@@ -68,24 +86,29 @@ int DNSCompress(__inout char *DNSBody, __in int DNSBodyLength)
         }
 
         /* Compressing stage */
-        LengthDifference = i.GetName(&i, NULL, 0) -
-                           2 /* 2 is the pointer length */
-                           ;
-
-        if( LengthDifference < 0 )
+        NameLength = i.GetName(&i, NULL, 0);
+        if( NameLength < 0 )
         {
             return -4;
         }
 
-        memmove(CurrentName,
-                CurrentName + LengthDifference,
-                p.RawDnsLength - ((CurrentName + LengthDifference) - p.RawDns)
-                );
+        LengthDifference = NameLength - 2; /* 2 is the pointer length */
 
-        DNSLabelMakePointer(CurrentName, LastName - p.RawDns);
+        /* Only the same name can be replaced by the pointer */
+        if( LengthDifference > 0 &&
+            IsSameLabels(CurrentName, LastName, NameLength)
+            )
+        {
+            memmove(CurrentName,
+                    CurrentName + LengthDifference,
+                    p.RawDnsLength - ((CurrentName + LengthDifference) - p.RawDns)
+                    );
+
+            DNSLabelMakePointer(CurrentName, LastName - p.RawDns);
 
-        /* Yeah, changed that */
-        p.RawDnsLength -= LengthDifference;
+            /* Yeah, changed that */
+            p.RawDnsLength -= LengthDifference;
+        }
 
         /* Whether to set `LastName' */
         if( i.Type == DNS_TYPE_CNAME )
diff --git a/hostsutils.c b/hostsutils.c
index 30707f6..3957a77 100755
--- a/hostsutils.c
+++ b/hostsutils.c
@@ -41,16 +41,23 @@ BOOL HostsUtils_TypeExisting(HostsContainer *Container,
             != NULL;
 }
 
+typedef struct _HostsGenerateArg {
+    const char      *Domain;
+    DnsGenerator    *g; /* Inited */
+} HostsGenerateArg;
+
 static int HostsUtils_Generate(int              Number,
                                HostsRecordType  Type,
                                const void       *Data,
-                               DnsGenerator     *g /* Inited */
+                               HostsGenerateArg *Arg
                                )
 {
+    DnsGenerator *g = Arg->g;
+
     switch( Type )
     {
     case HOSTS_TYPE_CNAME:
-        if( g->CName(g, "a", Data, 60) != 0 )
+        if( g->CName(g, Arg->Domain, Data, 60) != 0 )
         {
             return -26;
         }
@@ -58,7 +65,7 @@ static int HostsUtils_Generate(int              Number,
 
     case HOSTS_TYPE_A:
         if( g->RawData(g,
-                       "a",
+                       Arg->Domain,
                        DNS_TYPE_A,
                        DNS_CLASS_IN,
                        (const char *)(((IpAddr *)Data)->Addr + 12),
@@ -73,7 +80,7 @@ static int HostsUtils_Generate(int              Number,
 
     case HOSTS_TYPE_AAAA:
         if( g->RawData(g,
-                       "a",
+                       Arg->Domain,
                        DNS_TYPE_AAAA,
                        DNS_CLASS_IN,
                        (const char *)(((IpAddr *)Data)->Addr),
@@ -97,7 +104,7 @@ static int HostsUtils_Generate(int              Number,
             }
 
             if( g->RawData(g,
-                           "a",
+                           Arg->Domain,
                            DNS_TYPE_A,
                            DNS_CLASS_IN,
                            ActuallData,
@@ -190,6 +197,7 @@ HostsUtilsTryResult HostsUtils_Try(MsgContext *MsgCtx,
     if( MatchState != NULL )
     {
         DnsGenerator g;
+        HostsGenerateArg Arg;
 
         char *HereToGenerate = RequestEntity + Header->EntityLength;
         int LeftBufferLength =
@@ -220,11 +228,14 @@ HostsUtilsTryResult HostsUtils_Try(MsgContext *MsgCtx,
             return HOSTSUTILS_TRY_NONE;
         }
 
+        Arg.Domain = Header->Domain;
+        Arg.g = &g;
+
         if( Container->Find(Container,
                             Header->Domain,
                             Type,
                             (HostsFindFunc)HostsUtils_Generate,
-                            &g
+                            &Arg
                             )
             == NULL )
         {
-- 
2.43.0


From 33be1c159d9011292870700865978abd12b45bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:22 +0000
Subject: [PATCH 18/59] fix: late answers of redirected queries don't go to
 others

---
 hosts.c   | 29 +++++++++++++++++++++++++----
 iheader.c |  4 ++++
 iheader.h |  2 ++
 3 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/hosts.c b/hosts.c
index f809d17..022fccd 100755
--- a/hosts.c
+++ b/hosts.c
@@ -116,6 +116,12 @@ int Hosts_Get(MsgContext *MsgCtx, int BufferLength)
     }
 }
 
+/* Answers come after this are too late */
+static void Hosts_SweepCallback(const MsgContext *MsgCtx, int Number, void *Arg)
+{
+    ((IHeader *)MsgCtx)->Serial = 0;
+}
+
 static int
 #ifdef WIN32
 WINAPI
@@ -142,6 +148,7 @@ Hosts_SocketLoop(void *Unused)
     char OuterBuffer[SOCKET_CONTEXT_LENGTH];
     /* MsgContext *OuterMsgCtx = (MsgContext *)OuterBuffer; */
     IHeader *OuterHeader = (IHeader *)OuterBuffer;
+    uint32_t LastSerial = 0;
     char    *OuterEntity = OuterBuffer + sizeof(IHeader);
 
     int State;
@@ -185,7 +192,7 @@ Hosts_SocketLoop(void *Unused)
                 break;
             }
             TimeLimit = LongTime;
-            Context.Sweep(&Context, NULL, NULL);
+            Context.Sweep(&Context, Hosts_SweepCallback, NULL);
         } else if( Pulled == InnerSocket )
         {
             /* Recursive query */
@@ -231,6 +238,12 @@ Hosts_SocketLoop(void *Unused)
                 continue;
             }
 
+            if( ++LastSerial == 0 )
+            {
+                ++LastSerial;
+            }
+            InnerHeader->Serial = LastSerial;
+
             MsgCtxStored = Context.Add(&Context, InnerMsgCtx);
             if( MsgCtxStored == NULL )
             {
@@ -239,6 +252,7 @@ Hosts_SocketLoop(void *Unused)
             }
 
             OuterHeader->Parent = (IHeader *)MsgCtxStored;
+            OuterHeader->ParentSerial = LastSerial;
 
             MMgr_Send(OuterBuffer, SOCKET_CONTEXT_LENGTH);
 
@@ -264,13 +278,20 @@ Hosts_SocketLoop(void *Unused)
 
             BackTraceHeader = OuterHeader->Parent;
             BackTraceMsgCtx = (MsgContext *)BackTraceHeader;
-            DNSCopyQueryIdentifier(InnerHeader + 1, BackTraceHeader + 1);
-            if( Context.GenAnswerHeaderAndRemove(&Context, BackTraceMsgCtx, InnerMsgCtx) != 0 )
+            if( BackTraceHeader == NULL ||
+                BackTraceHeader->Serial != OuterHeader->ParentSerial
+                )
             {
-                ERRORMSG("Fatal error 267.\n");
+                /* Swept, `BackTraceHeader' may be of another query now */
                 continue;
             }
 
+            memcpy(InnerHeader, BackTraceHeader, sizeof(IHeader));
+            DNSCopyQueryIdentifier(InnerHeader + 1, BackTraceHeader + 1);
+
+            BackTraceHeader->Serial = 0;
+            Context.Del(&Context, BackTraceMsgCtx);
+
             if( HostsUtils_CombineRecursedResponse((MsgContext *)InnerBuffer,
                                                    SOCKET_CONTEXT_LENGTH,
                                                    OuterEntity,
diff --git a/iheader.c b/iheader.c
index 7c52565..3541e9b 100755
--- a/iheader.c
+++ b/iheader.c
@@ -10,6 +10,8 @@ static BOOL ap = FALSE;
 void IHeader_Reset(IHeader *h)
 {
     h->Parent = NULL;
+    h->Serial = 0;
+    h->ParentSerial = 0;
     h->RequestTcp = FALSE;
     h->Agent[0] = '\0';
     h->BackAddress.family = AF_UNSPEC;
@@ -32,6 +34,8 @@ int IHeader_Fill(IHeader *h,
     DnsSimpleParserIterator i;
 
     h->Parent = NULL;
+    h->Serial = 0;
+    h->ParentSerial = 0;
     h->RequestTcp = FALSE;
     h->EDNSEnabled = FALSE;
 
diff --git a/iheader.h b/iheader.h
index 3e447d9..6c3264e 100755
--- a/iheader.h
+++ b/iheader.h
@@ -12,6 +12,8 @@ typedef struct _MsgContext MsgContext;
 
 struct _IHeader{
     IHeader     *Parent;    /* Solve CNAME hosts records. */
+    uint32_t    Serial;     /* Identifies a waiting CNAME query, 0 for none. */
+    uint32_t    ParentSerial;
     BOOL        RequestTcp; /* Parent is from TCP. */
     time_t      Timestamp;
 
-- 
2.43.0


From cd09734d96347476013f2e73b1d1de1e0d61c2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:44 +0000
Subject: [PATCH 19/59] fix: stop redirecting names that lead back to
 themselves

---
 hosts.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/hosts.c b/hosts.c
index 022fccd..4cd9b99 100755
--- a/hosts.c
+++ b/hosts.c
@@ -116,6 +116,26 @@ int Hosts_Get(MsgContext *MsgCtx, int BufferLength)
     }
 }
 
+/* A name redirected too many times is very likely redirected to itself */
+#define MAX_REDIRECTION 16
+
+static BOOL Hosts_RedirectedTooManyTimes(const IHeader *Header)
+{
+    int Times = 0;
+
+    while( Header->Parent != NULL )
+    {
+        if( ++Times >= MAX_REDIRECTION )
+        {
+            return TRUE;
+        }
+
+        Header = Header->Parent;
+    }
+
+    return FALSE;
+}
+
 /* Answers come after this are too late */
 static void Hosts_SweepCallback(const MsgContext *MsgCtx, int Number, void *Arg)
 {
@@ -215,6 +235,12 @@ Hosts_SocketLoop(void *Unused)
                 continue;
             }
 
+            if( Hosts_RedirectedTooManyTimes(InnerHeader) )
+            {
+                INFO("Redirected too many times: %s\n", InnerHeader->Domain);
+                continue;
+            }
+
             if( Hosts_GetCName(InnerHeader->Domain, RecursedDomain) != 0 )
             {
                 ERRORMSG("Fatal error 221.\n");
-- 
2.43.0


From bc0f6fe0c3d6a5b1158ad2a93af67688cd493e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:59 +0000
Subject: [PATCH 20/59] fix: keep the type of cached NS and PTR records

---
 dnsgenerator.c | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/dnsgenerator.c b/dnsgenerator.c
index 9e277b1..47522a3 100755
--- a/dnsgenerator.c
+++ b/dnsgenerator.c
@@ -291,11 +291,13 @@ static int DnsGenerator_Question(DnsGenerator *g,
     return 0;
 }
 
-static int DnsGenerator_CName(DnsGenerator *g,
-                              const char *Name,
-                              const char *CName,
-                              int Ttl
-                              )
+/* Records whose data is only a name: CNAME, NS, PTR */
+static int DnsGenerator_NameRecord(DnsGenerator *g,
+                                   const char *Name,
+                                   DNSRecordType Type,
+                                   const char *CName,
+                                   int Ttl
+                                   )
 {
     DnsRecordPurpose p = DnsGenerator_CurrentPurpose(g);
 
@@ -312,7 +314,7 @@ static int DnsGenerator_CName(DnsGenerator *g,
         return -1;
     }
 
-    if( DnsGenerator_16Uint(g, DNS_TYPE_CNAME) != 0 )
+    if( DnsGenerator_16Uint(g, Type) != 0 )
     {
         return -2;
     }
@@ -344,6 +346,15 @@ static int DnsGenerator_CName(DnsGenerator *g,
     return 0;
 }
 
+static int DnsGenerator_CName(DnsGenerator *g,
+                              const char *Name,
+                              const char *CName,
+                              int Ttl
+                              )
+{
+    return DnsGenerator_NameRecord(g, Name, DNS_TYPE_CNAME, CName, Ttl);
+}
+
 static int DnsGenerator_MX(DnsGenerator *g,
                            const char *Name,
                            int Preference,
@@ -882,7 +893,7 @@ static int DnsGenerator_Generate(DnsGenerator *g,
     case DNS_TYPE_CNAME:
     case DNS_TYPE_PTR:
     case DNS_TYPE_NS:
-        Ret = g->CName(g, Name, Data, Ttl);
+        Ret = DnsGenerator_NameRecord(g, Name, Type, Data, Ttl);
         break;
 
     case DNS_TYPE_MX:
-- 
2.43.0


From c550f5e1d5162107a7fb2d527157e622d09a3444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:41 +0000
Subject: [PATCH 21/59] fix: cache records whose data is the head of a cached
 one

---
 dnscache.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/dnscache.c b/dnscache.c
index c0046c4..68e1a0e 100755
--- a/dnscache.c
+++ b/dnscache.c
@@ -407,7 +407,8 @@ static int32_t DNSCache_GetAvailableChunk(uint32_t Length, Cht_Node **Out)
 
 }
 
-static Cht_Node *DNSCache_FindFromCache(const char *Content, size_t Length, Cht_Node *Start, time_t CurrentTime)
+/* Not `Whole': `Content' is only the head of the item */
+static Cht_Node *DNSCache_FindFromCache(const char *Content, size_t Length, BOOL Whole, Cht_Node *Start, time_t CurrentTime)
 {
     Cht_Node *Node = Start;
 
@@ -420,7 +421,11 @@ static Cht_Node *DNSCache_FindFromCache(const char *Content, size_t Length, Cht_
 
         if( IgnoreTTL == TRUE || (CurrentTime - Node->TimeAdded < Node->TTL) )
         {
-            if( memcmp(Content, MapStart + Node->Offset + 1, Length) == 0 )
+            size_t ItemLength = Node->UsedLength - 1;
+
+            if( (Whole ? Length == ItemLength : Length <= ItemLength) &&
+                memcmp(Content, MapStart + Node->Offset + 1, Length) == 0
+                )
             {
                 return Node;
             }
@@ -436,7 +441,7 @@ static uint32_t DNSCache_CacheMinTTL(const char *Content, size_t Length, uint32_
     Cht_Node *Node = NULL;
 
     /* Get the smallest, in case of not equal. */
-    while( (Node = DNSCache_FindFromCache(Content, Length, Node, CurrentTime)) != NULL )
+    while( (Node = DNSCache_FindFromCache(Content, Length, FALSE, Node, CurrentTime)) != NULL )
     {
         uint32_t TTL = Node->TTL - (CurrentTime - Node->TimeAdded);
         if( RecordTTL > TTL )
@@ -446,7 +451,7 @@ static uint32_t DNSCache_CacheMinTTL(const char *Content, size_t Length, uint32_
     }
 
     Node = NULL;
-    while( (Node = DNSCache_FindFromCache(Content, Length, Node, CurrentTime)) != NULL )
+    while( (Node = DNSCache_FindFromCache(Content, Length, FALSE, Node, CurrentTime)) != NULL )
     {
         Node->TTL = RecordTTL;
         Node->TimeAdded = CurrentTime;
@@ -527,7 +532,7 @@ static int DNSCache_AddAItemToCache(DnsSimpleParserIterator *i,
     /* Add the cache item to the main cache zone below */
 
     /* Determine whether the cache item has existed in the main cache zone */
-    if(DNSCache_FindFromCache(Item, BufferItr - Item, NULL, CurrentTime) == NULL)
+    if(DNSCache_FindFromCache(Item, BufferItr - Item, TRUE, NULL, CurrentTime) == NULL)
     {
         /* If not, add it */
         DEBUG("Add cache: %s\n", Item);
@@ -707,6 +712,7 @@ static int DNSCache_GetRawRecordsFromCache(__in    const char *Name,
     {
         Node = DNSCache_FindFromCache(Name_Type_Class,
                                       KeyLength + 1,
+                                      FALSE,
                                       Node,
                                       CurrentTime
                                       );
@@ -778,6 +784,7 @@ static Cht_Node *DNSCache_GetCNameFromCache(__in char *Name,
     {
         Cht_Node *iNode = DNSCache_FindFromCache(Name_Type_Class,
                                                  KeyLength + 1,
+                                                 FALSE,
                                                  Node,
                                                  CurrentTime
                                                  );
-- 
2.43.0


From 63d06986046464fd9eb377fc6460def5e2647886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:17 +0000
Subject: [PATCH 22/59] fix: don't cache truncated messages

---
 dnscache.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dnscache.c b/dnscache.c
index 68e1a0e..bfb0c42 100755
--- a/dnscache.c
+++ b/dnscache.c
@@ -652,6 +652,12 @@ int DNSCache_AddItemsToCache(MsgContext *MsgCtx, BOOL IsFirst)
         return -1;
     }
 
+    /* A partial set of records is not an answer */
+    if( p._Flags.Truncated(&p) )
+    {
+        return -3;
+    }
+
     if( DnsSimpleParserIterator_Init(&i, &p) != 0 )
     {
         return -2;
-- 
2.43.0


From 37a813237014ec3fb2df5a31917cfe2434952025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:58 +0000
Subject: [PATCH 23/59] fix: don't leave partial record sets in the cache

---
 cacheht.c  |   6 +++
 cacheht.h  |   2 +
 dnscache.c | 140 ++++++++++++++++++++++++++++++++++++++++++-----------
 3 files changed, 119 insertions(+), 29 deletions(-)

diff --git a/cacheht.c b/cacheht.c
index acca20f..95d61be 100755
--- a/cacheht.c
+++ b/cacheht.c
@@ -419,6 +419,12 @@ Cht_Node *CacheHT_Get(CacheHT *h, const char *Key, const Cht_Node *Start, const
 
 }
 
+int32_t CacheHT_GetSubscript(const CacheHT *h, const Cht_Node *Node)
+{
+    /* Nodes are placed downwards */
+    return (h->NodeChunk.Data - (const char *)Node) / h->NodeChunk.DataLength;
+}
+
 void CacheHT_Free(CacheHT *h)
 {
     Array_Free(&(h->NodeChunk));
diff --git a/cacheht.h b/cacheht.h
index 859635c..a305b04 100755
--- a/cacheht.h
+++ b/cacheht.h
@@ -52,6 +52,8 @@ int CacheHT_RemoveFromSlot(CacheHT *h, int32_t SubScriptOfNode, Cht_Node *Node);
 
 Cht_Node *CacheHT_Get(CacheHT *h, const char *Key, const Cht_Node *Start, const uint32_t *HashValue);
 
+int32_t CacheHT_GetSubscript(const CacheHT *h, const Cht_Node *Node);
+
 void CacheHT_Free(CacheHT *h);
 
 #endif /* HASHTABLE_H_INCLUDED */
diff --git a/dnscache.c b/dnscache.c
index bfb0c42..259b0aa 100755
--- a/dnscache.c
+++ b/dnscache.c
@@ -56,6 +56,31 @@ struct _Header{
     char        Comment[128 - sizeof(uint32_t) - sizeof(int32_t) - sizeof(int32_t) - sizeof(int32_t) - sizeof(CacheHT)];
 };
 
+static void DNSCache_RemoveNode(int32_t Subscript, Cht_Node *Node)
+{
+    Node->TTL = 0;
+
+    *(char *)(MapStart + Node->Offset) = 0xFD;
+
+    CacheHT_RemoveFromSlot(CacheInfo, Subscript, Node);
+
+    --(*CacheCount);
+}
+
+static void DNSCache_UpdateEnd(void)
+{
+    const Array *ChunkList = &(CacheInfo->NodeChunk);
+    const Cht_Node *Node;
+
+    if( ChunkList->Used == 0 )
+    {
+        (*CacheEnd) = sizeof(struct _Header);
+    } else {
+        Node = (Cht_Node *)Array_GetBySubscript(ChunkList, ChunkList->Used - 1);
+        (*CacheEnd) = Node->Offset + Node->Length;
+    }
+}
+
 static void DNSCacheTTLCountdown_Task(void *Unused, void *Unused2)
 {
     BOOL        GotMutex = FALSE;
@@ -78,14 +103,7 @@ static void DNSCacheTTLCountdown_Task(void *Unused, void *Unused2)
                     GotMutex = TRUE;
                 }
 
-                Node->TTL = 0;
-
-                *(char *)(MapStart + Node->Offset) = 0xFD;
-
-                CacheHT_RemoveFromSlot(CacheInfo, loop, Node);
-
-                --(*CacheCount);
-
+                DNSCache_RemoveNode(loop, Node);
             }
         }
 
@@ -94,13 +112,7 @@ static void DNSCacheTTLCountdown_Task(void *Unused, void *Unused2)
 
     if(GotMutex == TRUE)
     {
-        if( ChunkList->Used == 0 )
-        {
-            (*CacheEnd) = sizeof(struct _Header);
-        } else {
-            Node = (Cht_Node *)Array_GetBySubscript(ChunkList, ChunkList->Used - 1);
-            (*CacheEnd) = Node->Offset + Node->Length;
-        }
+        DNSCache_UpdateEnd();
 
         RWLock_UnWLock(CacheLock);
     }
@@ -463,51 +475,52 @@ static uint32_t DNSCache_CacheMinTTL(const char *Content, size_t Length, uint32_
 /* Item: \xFFStrName\x20HexType\x20HexClass\x00(R)Data
    ht: StrName\x20HexType\x20HexClass, NtcTriplet
    https://tools.ietf.org/html/rfc1035 */
-static int DNSCache_AddAItemToCache(DnsSimpleParserIterator *i,
-                                    time_t CurrentTime,
-                                    const CtrlContent *InfectedTtlContent
-                                    )
+/* Length of the item including the start byte returned.
+   The name\x20type\x20class triplet is there, even if the data isn't. */
+static int DNSCache_GenerateItem(DnsSimpleParserIterator *i,
+                                 char *Buffer,
+                                 int BufferLength
+                                 )
 {
-    char            Buffer[512]; /* covers most cases */
     char            *Item = Buffer + 1;
     int             Length;
 
     /* Iterator of `Buffer' */
     char            *BufferItr;
 
-    const CtrlContent   *TtlContent;
+    Buffer[0] = Buffer[1] = '\0';
 
     /* Assign start byte of the cache */
     Buffer[0] = CACHE_START;
 
     /* Assign the name of the cache */
-    if( i->GetName(i, Item, sizeof(Buffer) -1) < 0 )
+    if( i->GetName(i, Item, BufferLength - 1) < 0 )
     {
         return -1;
     }
 
     /* Jump just over the name, right at '\0' */
     BufferItr = Item + strlen(Item);
-    if( BufferItr >= Buffer + sizeof(Buffer) )
+    if( BufferItr >= Buffer + BufferLength )
     {
         return -2;
     }
 
     /* Set record type and class */
     BufferItr += snprintf(BufferItr,
-                          sizeof(Buffer) - (BufferItr - Buffer),
+                          BufferLength - (BufferItr - Buffer),
                           " %X %X",
                           i->Type,
                           i->Klass
                           );
-    if( BufferItr >= Buffer + sizeof(Buffer) )
+    if( BufferItr >= Buffer + BufferLength )
     {
         return -3;
     }
 
     /* End of name\x20type\x20class triplet */
     BufferItr++;
-    if( BufferItr >= Buffer + sizeof(Buffer) )
+    if( BufferItr >= Buffer + BufferLength )
     {
         return -4;
     }
@@ -515,18 +528,67 @@ static int DNSCache_AddAItemToCache(DnsSimpleParserIterator *i,
     /* Generate data and store them */
     Length = i->ToCacheData(i,
                             BufferItr,
-                            sizeof(Buffer) - (BufferItr - Buffer)
+                            BufferLength - (BufferItr - Buffer)
                             );
     if( Length <= 0 )
     {
         return -5;
     }
     BufferItr += Length;
-    if( BufferItr >= Buffer + sizeof(Buffer) )
+    if( BufferItr >= Buffer + BufferLength )
     {
         return -6;
     }
 
+    return BufferItr - Buffer;
+}
+
+/* Remove all of the records with the same name, type and class, if the one
+   isn't cached. Because a partial set of records is not an answer. */
+static void DNSCache_RemoveIfAbsent(DnsSimpleParserIterator *i, time_t CurrentTime)
+{
+    char    Buffer[512];
+    char    *Item = Buffer + 1;
+    int     Length = DNSCache_GenerateItem(i, Buffer, sizeof(Buffer));
+
+    Cht_Node    *Node;
+
+    if( Length > 0 &&
+        DNSCache_FindFromCache(Item, Length - 1, TRUE, NULL, CurrentTime) != NULL
+        )
+    {
+        return;
+    }
+
+    while( (Node = DNSCache_FindFromCache(Item, strlen(Item) + 1, FALSE, NULL, CurrentTime)) != NULL )
+    {
+        DNSCache_RemoveNode(CacheHT_GetSubscript(CacheInfo, Node), Node);
+    }
+
+    DNSCache_UpdateEnd();
+}
+
+static int DNSCache_AddAItemToCache(DnsSimpleParserIterator *i,
+                                    time_t CurrentTime,
+                                    const CtrlContent *InfectedTtlContent
+                                    )
+{
+    char            Buffer[512]; /* covers most cases */
+    char            *Item = Buffer + 1;
+    int             Length;
+
+    /* Iterator of `Buffer' */
+    char            *BufferItr;
+
+    const CtrlContent   *TtlContent;
+
+    Length = DNSCache_GenerateItem(i, Buffer, sizeof(Buffer));
+    if( Length < 0 )
+    {
+        return Length;
+    }
+    BufferItr = Buffer + Length;
+
     /* The whole cache data generating completed */
 
     /* Add the cache item to the main cache zone below */
@@ -640,6 +702,8 @@ int DNSCache_AddItemsToCache(MsgContext *MsgCtx, BOOL IsFirst)
     IHeader *Header = (IHeader *)MsgCtx;
     char *DnsEntity = IHEADER_TAIL(Header);
     const CtrlContent *TtlContent = NULL;
+    time_t CurrentTime = time(NULL);
+    BOOL Failed = FALSE;
 
     DnsSimpleParser p;
     DnsSimpleParserIterator i;
@@ -675,7 +739,25 @@ int DNSCache_AddItemsToCache(MsgContext *MsgCtx, BOOL IsFirst)
 
         if( RightPurpose && IsValidCachedType(i.Type) && CachedClass )
         {
-            DNSCache_AddAItemToCache(&i, time(NULL), TtlContent);
+            if( DNSCache_AddAItemToCache(&i, CurrentTime, TtlContent) != 0 )
+            {
+                Failed = TRUE;
+            }
+        }
+    }
+
+    if( Failed && DnsSimpleParserIterator_Init(&i, &p) == 0 )
+    {
+        while( i.Next(&i) != NULL )
+        {
+            if( i.Purpose != DNS_RECORD_PURPOSE_UNKNOWN &&
+                i.Purpose != DNS_RECORD_PURPOSE_QUESTION &&
+                IsValidCachedType(i.Type) &&
+                i.Klass == DNS_CLASS_IN
+                )
+            {
+                DNSCache_RemoveIfAbsent(&i, CurrentTime);
+            }
         }
     }
 
-- 
2.43.0


From 44f2e585245446f6ec6afab645b84007b21efbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:00 +0000
Subject: [PATCH 24/59] fix: look up the TTL rules of cached records by their
 names

---
 dnscache.c | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/dnscache.c b/dnscache.c
index 259b0aa..ff22f13 100755
--- a/dnscache.c
+++ b/dnscache.c
@@ -265,13 +265,13 @@ int DNSCache_Init(ConfigFileInfo *ConfigInfo)
 
     if( OverrideTTL > -1 )
     {
-        CacheTtlCrtl_Add(TtlCtrl, "*", TTL_STATE_FIXED, 1, OverrideTTL, TRUE);
+        CacheTtlCrtl_Add(TtlCtrl, "*", TTL_STATE_FIXED, 1, OverrideTTL, TTL_CTRL_INFECTION_AGGRESSIVLY);
     } else {
         if( TTLMultiple < 1 )
         {
             ERRORMSG("Invalid `MultipleTTL'.\n");
         } else if( TTLMultiple > 1 ){
-            CacheTtlCrtl_Add(TtlCtrl, "*", TTL_STATE_VARIABLE, TTLMultiple, 0, TRUE);
+            CacheTtlCrtl_Add(TtlCtrl, "*", TTL_STATE_VARIABLE, TTLMultiple, 0, TTL_CTRL_INFECTION_AGGRESSIVLY);
         }
     }
 
@@ -568,6 +568,21 @@ static void DNSCache_RemoveIfAbsent(DnsSimpleParserIterator *i, time_t CurrentTi
     DNSCache_UpdateEnd();
 }
 
+/* The rule for the owner of the record */
+static const CtrlContent *DNSCache_GetTtlContent(DnsSimpleParserIterator *i)
+{
+    char    Name[253 + 1];
+
+    if( TtlCtrl == NULL || i->GetName(i, Name, sizeof(Name)) < 0 )
+    {
+        return NULL;
+    }
+
+    StrToLower(Name);
+
+    return CacheTtlCrtl_Get(TtlCtrl, Name);
+}
+
 static int DNSCache_AddAItemToCache(DnsSimpleParserIterator *i,
                                     time_t CurrentTime,
                                     const CtrlContent *InfectedTtlContent
@@ -618,7 +633,7 @@ static int DNSCache_AddAItemToCache(DnsSimpleParserIterator *i,
                     break;
 
                 case TTL_CTRL_INFECTION_PASSIVLY:
-                    TtlContent = CacheTtlCrtl_Get(TtlCtrl, Item);
+                    TtlContent = DNSCache_GetTtlContent(i);
                     if( TtlContent == NULL )
                     {
                         TtlContent = InfectedTtlContent;
@@ -626,11 +641,11 @@ static int DNSCache_AddAItemToCache(DnsSimpleParserIterator *i,
                     break;
 
                 case TTL_CTRL_INFECTION_NONE:
-                    TtlContent = CacheTtlCrtl_Get(TtlCtrl, Item);
+                    TtlContent = DNSCache_GetTtlContent(i);
                     break;
             }
         } else {
-            TtlContent = CacheTtlCrtl_Get(TtlCtrl, Item);
+            TtlContent = DNSCache_GetTtlContent(i);
         }
 
         if( TtlContent != NULL )
-- 
2.43.0


From a1e356eedaaf355a70ff4e33933a5bb06ffe3f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:00 +0000
Subject: [PATCH 25/59] fix: don't wrap computed cache TTLs around

---
 cachettlcrtl.c | 8 ++++++++
 cachettlcrtl.h | 2 ++
 dnscache.c     | 2 +-
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/cachettlcrtl.c b/cachettlcrtl.c
index 8b0753d..0a454d2 100755
--- a/cachettlcrtl.c
+++ b/cachettlcrtl.c
@@ -99,6 +99,14 @@ int CacheTtlCrtl_Add_From_StringList(CacheTtlCtrl *c, StringList *sl)
     return 0;
 }
 
+uint32_t CacheTtlCrtl_Compute(const CtrlContent *cc, uint32_t TTL)
+{
+    uint64_t Result = (uint64_t)(cc->Coefficient) * TTL + cc->Increment;
+
+    /* Maximum of TTL, RFC 2181 */
+    return Result > INT32_MAX ? INT32_MAX : (uint32_t)Result;
+}
+
 const CtrlContent *CacheTtlCrtl_Get(CacheTtlCtrl *c, const char *Domain)
 {
     CtrlContent *ret = NULL;
diff --git a/cachettlcrtl.h b/cachettlcrtl.h
index 1e1c0a5..023900b 100755
--- a/cachettlcrtl.h
+++ b/cachettlcrtl.h
@@ -32,6 +32,8 @@ int CacheTtlCrtl_Add_From_String(CacheTtlCtrl *c, const char *Rule);
 
 int CacheTtlCrtl_Add_From_StringList(CacheTtlCtrl *c, StringList *sl);
 
+uint32_t CacheTtlCrtl_Compute(const CtrlContent *cc, uint32_t TTL);
+
 const CtrlContent *CacheTtlCrtl_Get(CacheTtlCtrl *c, const char *Domain);
 
 #endif /* CACHETTLCRTL_H_INCLUDED */
diff --git a/dnscache.c b/dnscache.c
index ff22f13..38255ef 100755
--- a/dnscache.c
+++ b/dnscache.c
@@ -661,7 +661,7 @@ static int DNSCache_AddAItemToCache(DnsSimpleParserIterator *i,
                     break;
 
                 default:
-                    RecordTTL = (TtlContent->Coefficient) * i->GetTTL(i) + (TtlContent->Increment);
+                    RecordTTL = CacheTtlCrtl_Compute(TtlContent, i->GetTTL(i));
                     break;
             }
         } else {
-- 
2.43.0


From a95d8b242509612b02e05b26dd98a812775f1c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:00 +0000
Subject: [PATCH 26/59] fix: match domains of cache TTL rules
 case-insensitively

---
 cachettlcrtl.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cachettlcrtl.c b/cachettlcrtl.c
index 0a454d2..aff06f1 100755
--- a/cachettlcrtl.c
+++ b/cachettlcrtl.c
@@ -2,6 +2,7 @@
 #include <string.h>
 #include "cachettlcrtl.h"
 #include "logs.h"
+#include "utils.h"
 
 void CacheTtlCrtl_Free(CacheTtlCtrl *c)
 {
@@ -27,13 +28,15 @@ int CacheTtlCrtl_Add(CacheTtlCtrl *c, const char *Domain, int State, uint32_t Co
 
 int CacheTtlCrtl_Add_From_String(CacheTtlCtrl *c, const char *Rule)
 {
-    char    Domain[128], Cmd[16], Arg[64];
+    char    Domain[256] = "", Cmd[16] = "", Arg[64] = "";
     int     State;
     uint32_t Coefficient = 0;
     uint32_t Increment = 0;
     int     Infection = TTL_CTRL_INFECTION_AGGRESSIVLY;
 
-    sscanf(Rule, "%127s%15s%63s", Domain, Cmd, Arg);
+    sscanf(Rule, "%255s%15s%63s", Domain, Cmd, Arg);
+
+    StrToLower(Domain);
 
     if( Cmd[0] == '$' )
     {
-- 
2.43.0


From b99b0a5a9f244b6080382352baf82ad3db691fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:41 +0000
Subject: [PATCH 27/59] fix: hold the cache lock while looking for expired
 records

---
 dnscache.c | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/dnscache.c b/dnscache.c
index 38255ef..0d4e367 100755
--- a/dnscache.c
+++ b/dnscache.c
@@ -83,25 +83,26 @@ static void DNSCache_UpdateEnd(void)
 
 static void DNSCacheTTLCountdown_Task(void *Unused, void *Unused2)
 {
-    BOOL        GotMutex = FALSE;
+    BOOL        Removed = FALSE;
 
     const Array *ChunkList = &(CacheInfo->NodeChunk);
-    int         loop = ChunkList->Used - 1;
-    Cht_Node    *Node = (Cht_Node *)Array_GetBySubscript(ChunkList, loop);
+    int         loop;
+    Cht_Node    *Node;
 
     time_t      CurrentTime = time(NULL);
 
+    RWLock_WrLock(CacheLock);
+
+    loop = ChunkList->Used - 1;
+    Node = (Cht_Node *)Array_GetBySubscript(ChunkList, loop);
+
     while( Node != NULL )
     {
         if( Node->TTL > 0 )
         {
             if( CurrentTime - Node->TimeAdded >= Node->TTL )
             {
-                if(GotMutex == FALSE)
-                {
-                    RWLock_WrLock(CacheLock);
-                    GotMutex = TRUE;
-                }
+                Removed = TRUE;
 
                 DNSCache_RemoveNode(loop, Node);
             }
@@ -110,12 +111,12 @@ static void DNSCacheTTLCountdown_Task(void *Unused, void *Unused2)
         Node = (Cht_Node *)Array_GetBySubscript(ChunkList, --loop);
     }
 
-    if(GotMutex == TRUE)
+    if(Removed == TRUE)
     {
         DNSCache_UpdateEnd();
-
-        RWLock_UnWLock(CacheLock);
     }
+
+    RWLock_UnWLock(CacheLock);
 }
 
 static BOOL IsReloadable(void)
-- 
2.43.0


From fa1d4322c65768314067e185482d2fcde829a8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:41 +0000
Subject: [PATCH 28/59] fix: make space of expired records at the end of the
 cache usable for any records

---
 cacheht.c  | 59 ++++++++++++++++++++++++++++++++++++++++++++++++++++++
 cacheht.h  |  2 ++
 dnscache.c |  2 ++
 3 files changed, 63 insertions(+)

diff --git a/cacheht.c b/cacheht.c
index 95d61be..2b6d9c8 100755
--- a/cacheht.c
+++ b/cacheht.c
@@ -382,6 +382,65 @@ int CacheHT_RemoveFromSlot(CacheHT *h, int32_t SubScriptOfNode, Cht_Node *Node)
     return 0;
 }
 
+/* Give up the free nodes at the end, then their space is able to be used for
+   items of any lengths. */
+void CacheHT_Shrink(CacheHT *h)
+{
+    Array   *NodeChunk = &(h->NodeChunk);
+    int32_t Used = NodeChunk->Used;
+    int32_t *KeyLink = &(h->Free2DList);
+
+    while( Used > 0 && ((Cht_Node *)Array_GetBySubscript(NodeChunk, Used - 1))->TTL == 0 )
+    {
+        --Used;
+    }
+
+    if( Used == NodeChunk->Used )
+    {
+        return;
+    }
+
+    while( *KeyLink >= 0 )
+    {
+        Cht_2DList  OldHead = *(Cht_2DList *)Array_GetBySubscript(NodeChunk, *KeyLink);
+        int32_t     Subscript = *KeyLink;
+        int32_t     *ValLink = KeyLink;
+
+        while( Subscript >= 0 )
+        {
+            Cht_2DList *Cur = (Cht_2DList *)Array_GetBySubscript(NodeChunk, Subscript);
+
+            if( Subscript < Used )
+            {
+                *ValLink = Subscript;
+                ValLink = &(Cur->ValNext);
+            } else {
+                --FreeNodeCount;
+            }
+
+            Subscript = Cur->ValNext;
+        }
+
+        if( ValLink == KeyLink )
+        {
+            /* None left */
+            *KeyLink = OldHead.KeyNext;
+        } else {
+            Cht_2DList *NewHead = (Cht_2DList *)Array_GetBySubscript(NodeChunk, *KeyLink);
+
+            *ValLink = -1;
+
+            NewHead->KeyNext = OldHead.KeyNext;
+            NewHead->TimeAdded = OldHead.TimeAdded;
+            NewHead->Count = OldHead.Count;
+
+            KeyLink = &(NewHead->KeyNext);
+        }
+    }
+
+    NodeChunk->Used = Used;
+}
+
 Cht_Node *CacheHT_Get(CacheHT *h, const char *Key, const Cht_Node *Start, const uint32_t *HashValue)
 {
     Cht_Node    *Node;
diff --git a/cacheht.h b/cacheht.h
index a305b04..00b39aa 100755
--- a/cacheht.h
+++ b/cacheht.h
@@ -50,6 +50,8 @@ int CacheHT_InsertToSlot(CacheHT    *h,
 
 int CacheHT_RemoveFromSlot(CacheHT *h, int32_t SubScriptOfNode, Cht_Node *Node);
 
+void CacheHT_Shrink(CacheHT *h);
+
 Cht_Node *CacheHT_Get(CacheHT *h, const char *Key, const Cht_Node *Start, const uint32_t *HashValue);
 
 int32_t CacheHT_GetSubscript(const CacheHT *h, const Cht_Node *Node);
diff --git a/dnscache.c b/dnscache.c
index 0d4e367..c376809 100755
--- a/dnscache.c
+++ b/dnscache.c
@@ -72,6 +72,8 @@ static void DNSCache_UpdateEnd(void)
     const Array *ChunkList = &(CacheInfo->NodeChunk);
     const Cht_Node *Node;
 
+    CacheHT_Shrink(CacheInfo);
+
     if( ChunkList->Used == 0 )
     {
         (*CacheEnd) = sizeof(struct _Header);
-- 
2.43.0


From b760a4fb31fea0b298197197ace0ab271627bc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:44 +0000
Subject: [PATCH 29/59] fix: don't trust the index of a reloaded cache file,
 which may be broken by a crash

---
 cacheht.c  | 19 ++++++++++++-----
 cacheht.h  |  6 +++++-
 dnscache.c | 61 ++++++++++++++++++++++++++++++++++++++++++++++++++----
 3 files changed, 76 insertions(+), 10 deletions(-)

diff --git a/cacheht.c b/cacheht.c
index 2b6d9c8..d213408 100755
--- a/cacheht.c
+++ b/cacheht.c
@@ -51,14 +51,23 @@ int CacheHT_Init(CacheHT *h, char *BaseAddr, int CacheSize)
     return 0;
 }
 
-int CacheHT_ReInit(CacheHT *h, char *BaseAddr, int CacheSize)
+/* Bring the existing node back */
+int CacheHT_ReviveNode(CacheHT *h, int32_t Subscript, void *Boundary, Cht_Node **Out)
 {
-    h->Slots.Data = BaseAddr + CacheSize - (h->Slots.DataLength) * (h->Slots.Used);
-    h->NodeChunk.Data = h->Slots.Data - h->NodeChunk.DataLength;
+    if( Array_PushBack(&(h->NodeChunk), NULL, Boundary) != Subscript )
+    {
+        return -1;
+    }
 
+    *Out = (Cht_Node *)Array_GetBySubscript(&(h->NodeChunk), Subscript);
     return 0;
 }
 
+void CacheHT_DiscardLastNode(CacheHT *h)
+{
+    --(h->NodeChunk.Used);
+}
+
 static int CacheHT_CreateNewNode(CacheHT *h, uint32_t ChunkSize, Cht_Node **Out, void *Boundary)
 {
     int         NewNode_i;
@@ -264,7 +273,7 @@ static Cht_Node *CacheHT_FindPredecessor(CacheHT *h, const Cht_Slot *Slot, int32
 /*  PreHead --> (NewHead [+ CurHead]) --> NextHead
     NewHead --> CurHead
  */
-static int CacheHT_AddTo2DList(CacheHT *h, int32_t SubScriptOfNode, Cht_Node *Node)
+int CacheHT_AddToFreeList(CacheHT *h, int32_t SubScriptOfNode, Cht_Node *Node)
 {
     int32_t Subscript = h->Free2DList;
     Cht_2DList  *PreHead = NULL;
@@ -373,7 +382,7 @@ int CacheHT_RemoveFromSlot(CacheHT *h, int32_t SubScriptOfNode, Cht_Node *Node)
      */
     if( SubScriptOfNode != NodeChunk->Used - 1 )
     {
-        CacheHT_AddTo2DList(h, SubScriptOfNode, Node);
+        CacheHT_AddToFreeList(h, SubScriptOfNode, Node);
         ++FreeNodeCount;
     } else {
         --(NodeChunk->Used);
diff --git a/cacheht.h b/cacheht.h
index 00b39aa..272c2cf 100755
--- a/cacheht.h
+++ b/cacheht.h
@@ -32,7 +32,11 @@ typedef struct _HashTable{
 
 int CacheHT_Init(CacheHT *h, char *BaseAddr, int CacheSize);
 
-int CacheHT_ReInit(CacheHT *h, char *BaseAddr, int CacheSize);
+int CacheHT_ReviveNode(CacheHT *h, int32_t Subscript, void *Boundary, Cht_Node **Out);
+
+void CacheHT_DiscardLastNode(CacheHT *h);
+
+int CacheHT_AddToFreeList(CacheHT *h, int32_t SubScriptOfNode, Cht_Node *Node);
 
 int32_t CacheHT_FindUnusedNode(CacheHT      *h,
                                uint32_t    ChunkSize,
diff --git a/dnscache.c b/dnscache.c
index c376809..587dd9c 100755
--- a/dnscache.c
+++ b/dnscache.c
@@ -140,19 +140,70 @@ static BOOL IsReloadable(void)
     return TRUE;
 }
 
+static BOOL IsValidItem(const Cht_Node *Node)
+{
+    const char  *Item = MapStart + Node->Offset;
+
+    return  Node->TTL > 0 &&
+            Node->UsedLength > 2 &&
+            Node->UsedLength <= Node->Length &&
+            *Item == CACHE_START &&
+            memchr(Item + 1, '\0', Node->UsedLength - 2) != NULL;
+}
+
+/* Only the nodes and their items are trusted, if they are sane. Others may be
+   broken, if the program was interrupted when updating the cache. */
 static void ReloadCache(void)
 {
     struct _Header  *Header = (struct _Header *)MapStart;
+    const Array     *NodeChunk = &(Header->ht.NodeChunk);
+    int32_t         Used = NodeChunk->Used;
+    int32_t         loop;
 
     INFO("Reloading the cache ...\n");
 
     CacheInfo = &(Header->ht);
 
-    CacheHT_ReInit(CacheInfo, MapStart, CacheSize);
-
     CacheEnd = &(Header->End);
     CacheCount = &(Header->CacheCount);
 
+    CacheHT_Init(CacheInfo, MapStart, CacheSize);
+    *CacheEnd = sizeof(struct _Header);
+    *CacheCount = 0;
+
+    for( loop = 0; loop < Used; ++loop )
+    {
+        Cht_Node *Node;
+
+        if( CacheHT_ReviveNode(CacheInfo, loop, MapStart + (*CacheEnd), &Node) != 0 )
+        {
+            break;
+        }
+
+        if( Node->Offset != *CacheEnd ||
+            Node->Length == 0 ||
+            Node->Length != CACHE_ROUND_UP(Node->Length) ||
+            Node->Length > (char *)Node - MapStart - Node->Offset
+            )
+        {
+            CacheHT_DiscardLastNode(CacheInfo);
+            break;
+        }
+
+        (*CacheEnd) += Node->Length;
+
+        if( IsValidItem(Node) )
+        {
+            CacheHT_InsertToSlot(CacheInfo, MapStart + Node->Offset + 1, loop, Node, NULL);
+            ++(*CacheCount);
+        } else {
+            Node->TTL = 0;
+            CacheHT_AddToFreeList(CacheInfo, loop, Node);
+        }
+    }
+
+    DNSCache_UpdateEnd();
+
     INFO("Cache reloaded, containing %d entries for %d items.\n", CacheInfo->NodeChunk.Used, (*CacheCount));
 }
 
@@ -162,7 +213,6 @@ static void CreateNewCache(void)
 
     memset(MapStart, 0, CacheSize);
 
-    Header->Ver = CACHE_VERSION;
     Header->CacheSize = CacheSize;
     Header->CacheCount = 0;
     CacheEnd = &(Header->End);
@@ -180,11 +230,14 @@ static void CreateNewCache(void)
 
     CacheHT_Init(CacheInfo, MapStart, CacheSize);
 
+    /* The last: it is a cache now */
+    Header->Ver = CACHE_VERSION;
 }
 
 static int InitCacheInfo(ConfigFileInfo *ConfigInfo, BOOL Reload)
 {
-    if( Reload == TRUE )
+    /* Not a cache yet, if creating it was interrupted */
+    if( Reload == TRUE && ((struct _Header *)MapStart)->Ver != 0 )
     {
         if( IsReloadable() )
         {
-- 
2.43.0


From 43741e1f006d981024b185a49f05ad97b5730f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:56 +0000
Subject: [PATCH 30/59] fix: take only valid addresses as addresses, with the
 value they mean

---
 addresslist.c    |  76 ++++++++++++++------
 goodiplist.c     |  12 +++-
 hostscontainer.c |   8 ++-
 utils.c          | 181 +++++++++++++++++++++++++++++++----------------
 4 files changed, 193 insertions(+), 84 deletions(-)

diff --git a/addresslist.c b/addresslist.c
index f19643b..39c5a5a 100755
--- a/addresslist.c
+++ b/addresslist.c
@@ -38,6 +38,36 @@ int AddressList_Add(AddressList *a, const Address_Type *Addr)
 
 }
 
+/* Pos is the position after the address, Port is not changed if there isn't one */
+static BOOL ParsePort(const char *Pos, in_port_t *Port)
+{
+    unsigned int p = 0;
+    const char  *Digits = Pos + 1;
+
+    if( *Pos == '\0' || isspace((unsigned char)*Pos) )
+    {
+        return TRUE;
+    }
+
+    if( *Pos != ':' || !isdigit((unsigned char)*Digits) )
+    {
+        return FALSE;
+    }
+
+    for( ; isdigit((unsigned char)*Digits); ++Digits )
+    {
+        p = p * 10 + (*Digits - '0');
+        if( p > 65535 )
+        {
+            return FALSE;
+        }
+    }
+
+    *Port = p;
+
+    return *Digits == '\0' || isspace((unsigned char)*Digits);
+}
+
 sa_family_t AddressList_ConvertFromString(Address_Type *Out, const char *Addr_Port, int DefaultPort)
 {
     sa_family_t Family;
@@ -52,7 +82,7 @@ sa_family_t AddressList_ConvertFromString(Address_Type *Out, const char *Addr_Po
         case AF_INET6:
             {
                 char        Addr[LENGTH_OF_IPV6_ADDRESS_ASCII + 1] = {0};
-                in_port_t   Port;
+                in_port_t   Port = DefaultPort;
                 const char  *PortPos;
 
                 memset(Addr, 0, sizeof(Addr));
@@ -63,21 +93,24 @@ sa_family_t AddressList_ConvertFromString(Address_Type *Out, const char *Addr_Po
                     return AF_UNSPEC;
                 }
 
-                /* LENGTH_OF_IPV6_ADDRESS_ASCII = 45 */
-                sscanf(Addr_Port + 1, "%45[^]]", Addr);
+                if( PortPos - Addr_Port > LENGTH_OF_IPV6_ADDRESS_ASCII )
+                {
+                    return AF_UNSPEC;
+                }
+                memcpy(Addr, Addr_Port + 1, PortPos - Addr_Port - 1);
 
-                PortPos = strchr(PortPos, ':');
-                if( PortPos == NULL )
+                if( !ParsePort(PortPos + 1, &Port) )
                 {
-                    Port = DefaultPort;
-                } else {
-                    sscanf(PortPos + 1, "%hu", &Port);
+                    return AF_UNSPEC;
                 }
 
                 Out->Addr.Addr6.sin6_family = Family;
                 Out->Addr.Addr6.sin6_port = htons(Port);
 
-                IPv6AddressToNum(Addr, &(Out->Addr.Addr6.sin6_addr));
+                if( IPv6AddressToNum(Addr, &(Out->Addr.Addr6.sin6_addr)) != 16 )
+                {
+                    return AF_UNSPEC;
+                }
 
                 return AF_INET6;
             }
@@ -85,24 +118,27 @@ sa_family_t AddressList_ConvertFromString(Address_Type *Out, const char *Addr_Po
 
         case AF_INET:
             {
-                char        Addr[LENGTH_OF_IPV4_ADDRESS_ASCII + 1] = {0};
-                in_port_t   Port;
+                char        Addr[64];
+                in_port_t   Port = DefaultPort;
                 const char  *PortPos;
 
-                memset(Addr, 0, sizeof(Addr));
+                PortPos = Addr_Port + strcspn(Addr_Port, ": \t");
 
-                PortPos = strchr(Addr_Port, ':');
+                if( !ParsePort(PortPos, &Port) || PortPos - Addr_Port >= sizeof(Addr) )
+                {
+                    return AF_UNSPEC;
+                }
 
-                /* LENGTH_OF_IPV4_ADDRESS_ASCII = 15 */
-                sscanf(Addr_Port, "%15[^:]", Addr);
+                memcpy(Addr, Addr_Port, PortPos - Addr_Port);
+                Addr[PortPos - Addr_Port] = '\0';
 
-                if( PortPos == NULL )
+                Out->Addr.Addr4.sin_family = Family;
+                Out->Addr.Addr4.sin_port = htons(Port);
+
+                if( IPv4AddressToNum(Addr, &(Out->Addr.Addr4.sin_addr)) != 4 )
                 {
-                    Port = DefaultPort;
-                } else {
-                    sscanf(PortPos + 1, "%hu", &Port);
+                    return AF_UNSPEC;
                 }
-                FILL_ADDR4(Out->Addr.Addr4, Family, Addr, Port);
 
                 return AF_INET;
             }
diff --git a/goodiplist.c b/goodiplist.c
index 1115028..5440013 100755
--- a/goodiplist.c
+++ b/goodiplist.c
@@ -193,12 +193,18 @@ static int AddToLists(ConfigFileInfo *ConfigInfo)
         int Port;
         struct sockaddr_in  ip;
 
-        sscanf(Itr, "%127s%*[^0123456789]%15[^:]:%d", n, ip_str, &Port);
+        if( sscanf(Itr, "%127s%*[^0123456789]%15[^:]:%d", n, ip_str, &Port) != 3 ||
+            Port < 0 || Port > 65535 ||
+            IPv4AddressToNum(ip_str, &(ip.sin_addr)) != 4
+            )
+        {
+            ERRORMSG("Invalid GoodIPListAddIP option: %s .\n", Itr);
+            continue;
+        }
+
         ip.sin_port = htons(Port);
         ip.sin_family = AF_INET; /* IPv4 only */
 
-        IPv4AddressToNum(ip_str, &(ip.sin_addr));
-
         if( StringChunk_Match_NoWildCard(GoodIpList,
                                          n,
                                          NULL,
diff --git a/hostscontainer.c b/hostscontainer.c
index 49fd1da..00c8897 100755
--- a/hostscontainer.c
+++ b/hostscontainer.c
@@ -283,7 +283,13 @@ PRIFUNC int HostsContainer_AddIP(HostsContainer *Container,
 {
     IpAddr ipAddr;
 
-    IpAddr_Parse(IP, &ipAddr);
+    if( IpAddr_Parse(IP, &ipAddr) != 0 ||
+        IpAddr_Is6(&ipAddr) != (Type == HOSTS_TYPE_AAAA)
+        )
+    {
+        INFO("Unrecognisable host : %s %s\n", IP, Domain);
+        return -1;
+    }
 
     return HostsContainer_AddNode(Container,
                                   Domain,
diff --git a/utils.c b/utils.c
index a549682..67ee105 100755
--- a/utils.c
+++ b/utils.c
@@ -440,106 +440,167 @@ EXIT_1:
 }
 #endif /* MASKED */
 
+/* Parse four decimal numbers separated by dots.
+ * Return the position after the address, or NULL if it is not an address.
+ */
+static const char *ParseIPv4(const char *asc, unsigned char Out[4])
+{
+    int i;
+
+    for( i = 0; i < 4; ++i )
+    {
+        int v = 0;
+
+        if( i > 0 && *asc++ != '.' )
+        {
+            return NULL;
+        }
+
+        if( !isdigit((unsigned char)*asc) )
+        {
+            return NULL;
+        }
+
+        for( ; isdigit((unsigned char)*asc); ++asc )
+        {
+            v = v * 10 + (*asc - '0');
+            if( v > 255 )
+            {
+                return NULL;
+            }
+        }
+
+        Out[i] = v;
+    }
+
+    return *asc == '.' ? NULL : asc;
+}
+
+static BOOL IsEndOfAddress(const char *p)
+{
+    return *p == '\0' || isspace((unsigned char)*p);
+}
+
+/* Return 16 on success, otherwise 0. A zone ("%...") is ignored. */
 int IPv6AddressToNum(const char *asc, void *Buffer)
 {
-    int16_t *buf_s  =   (int16_t *)Buffer;
-    const char  *itr;
+    unsigned char   Out[16] = {0};
+    int n = 0; /* Bytes filled */
+    int z = -1; /* Position of "::" */
 
     memset(Buffer, 0, 16);
 
-    for(; isspace(*asc); ++asc);
-
-    if( strstr(asc, "::") == NULL )
-    {   /* full format */
-        uint32_t a[8];
-        sscanf(asc, "%x:%x:%x:%x:%x:%x:%x:%x",
-                a, a + 1, a + 2, a + 3, a + 4, a + 5, a + 6, a + 7
-                );
-        SET_16_BIT_U_INT(buf_s, a[0]);
-        SET_16_BIT_U_INT(buf_s + 1, a[1]);
-        SET_16_BIT_U_INT(buf_s + 2, a[2]);
-        SET_16_BIT_U_INT(buf_s + 3, a[3]);
-        SET_16_BIT_U_INT(buf_s + 4, a[4]);
-        SET_16_BIT_U_INT(buf_s + 5, a[5]);
-        SET_16_BIT_U_INT(buf_s + 6, a[6]);
-        SET_16_BIT_U_INT(buf_s + 7, a[7]);
-    } else {
-        /* not full*/
+    for(; isspace((unsigned char)*asc); ++asc);
 
-        if( asc[2] == '\0' || isspace(asc[2]) )
+    if( asc[0] == ':' && asc[1] == ':' )
+    {
+        z = 0;
+        asc += 2;
+    }
+
+    while( isxdigit((unsigned char)*asc) )
+    {
+        const char  *End;
+        uint32_t    v = 0;
+
+        if( n > 14 )
         {
-            memset(Buffer, 0, 16);
             return 0;
         }
 
-        while(1)
+        for( End = asc; isxdigit((unsigned char)*End) && End - asc < 5; ++End );
+
+        if( *End == '.' )
         {
-            uint32_t a;
-            itr = asc;
-            asc = strchr(asc, ':');
-            if( asc == NULL )
+            /* The last 4 bytes could be in the form of IPv4 */
+            if( n > 12 || (asc = ParseIPv4(asc, Out + n)) == NULL )
+            {
                 return 0;
+            }
+            n += 4;
+            break;
+        }
+
+        if( End - asc > 4 )
+        {
+            return 0;
+        }
 
-            if( itr == asc )
+        sscanf(asc, "%4x", &v);
+        Out[n++] = v >> 8;
+        Out[n++] = v & 0xff;
+        asc = End;
+
+        if( asc[0] == ':' && asc[1] == ':' )
+        {
+            if( z >= 0 )
             {
-                break;
+                return 0;
             }
-
-            sscanf(itr, "%x:", &a);
-            SET_16_BIT_U_INT(buf_s, a);
-            ++buf_s;
+            z = n;
+            asc += 2;
+        } else if( asc[0] == ':' && isxdigit((unsigned char)asc[1]) ) {
             ++asc;
+        } else {
+            break;
         }
-        buf_s = (int16_t *)Buffer + 7;
-        for(; *asc != '\0'; ++asc);
-        while(1)
-        {
-            uint32_t a;
-            for(itr = asc; *itr != ':'; --itr);
-
-            if( *(itr + 1) == '\0' )
-                break;
+    }
 
-            sscanf(itr + 1, "%x", &a);
-            SET_16_BIT_U_INT(buf_s, a);
-            --buf_s;
-            asc = itr - 1;
+    if( !IsEndOfAddress(asc) && *asc != '%' )
+    {
+        return 0;
+    }
 
-            if( *(itr - 1) == ':' )
-                break;
+    if( z < 0 )
+    {
+        if( n != 16 )
+        {
+            return 0;
         }
+        memcpy(Buffer, Out, 16);
+    } else {
+        if( n > 14 )
+        {
+            return 0;
+        }
+        memcpy(Buffer, Out, z);
+        memcpy((unsigned char *)Buffer + 16 - (n - z), Out + z, n - z);
     }
 
     return 16;
 }
 
+/* Return 4 on success, otherwise 0. */
 int IPv4AddressToNum(const char *asc, void *Buffer)
 {
-    int ret = 0;
+    unsigned char   Out[4];
 
-    unsigned char *BufferInByte = (unsigned char *)Buffer;
+    memset(Buffer, 0, 4);
 
-    int Components[4];
+    for(; isspace((unsigned char)*asc); ++asc);
 
-    ret = sscanf(asc, "%d.%d.%d.%d", Components, Components + 1, Components + 2, Components + 3);
-    BufferInByte[0] = Components[0];
-    BufferInByte[1] = Components[1];
-    BufferInByte[2] = Components[2];
-    BufferInByte[3] = Components[3];
+    asc = ParseIPv4(asc, Out);
+    if( asc == NULL || !IsEndOfAddress(asc) )
+    {
+        return 0;
+    }
 
-    return ret;
+    memcpy(Buffer, Out, 4);
+
+    return 4;
 }
 
 sa_family_t GetAddressFamily(const char *Addr)
 {
-    char Buffer[8];
+    unsigned char Buffer[4];
 
-    if( strchr(Addr, '[') != NULL )
+    if( *Addr == '[' )
     {
         return AF_INET6;
     }
 
-    if( IPv4AddressToNum(Addr, Buffer) == 4 )
+    Addr = ParseIPv4(Addr, Buffer);
+    if( Addr != NULL && (*Addr == ':' || IsEndOfAddress(Addr)) )
     {
         return AF_INET;
     }
-- 
2.43.0


From cab889b0f1cd848b0e1dc9ce908afc96129b6294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:17 +0000
Subject: [PATCH 31/59] fix: match addresses with block and substitution rules
 regardless of other rules

---
 ipchunk.c | 145 +++++++++++++++++++++++-------------------------------
 ipmisc.c  |  19 +++++--
 2 files changed, 77 insertions(+), 87 deletions(-)

diff --git a/ipchunk.c b/ipchunk.c
index ee4396c..0ba5c47 100755
--- a/ipchunk.c
+++ b/ipchunk.c
@@ -96,6 +96,27 @@ BOOL IpSet_IsSingleIp(const IpSet *ipSet)
     return ipSet->PrefixBits != 0 && ipSet->PrefixBits == IpAddr_BitLength(&(ipSet->Ip));
 }
 
+/* Clear the bits after the prefix */
+static void IpSet_Mask(IpSet *ipSet, int PrefixBits)
+{
+    IpAddr  *ipAddr = &(ipSet->Ip);
+    int     Bits = PrefixBits + 128 - IpAddr_BitLength(ipAddr);
+    int     i = Bits / 8;
+
+    ipSet->PrefixBits = PrefixBits;
+
+    if( Bits % 8 != 0 )
+    {
+        ipAddr->Addr[i] &= ~(0xff >> (Bits % 8));
+        ++i;
+    }
+
+    if( i < 16 )
+    {
+        memset(ipAddr->Addr + i, 0, 16 - i);
+    }
+}
+
 int IpSet_Parse(const char *s, const char *p, IpSet *ipSet)
 {
     int n, L;
@@ -110,112 +131,61 @@ int IpSet_Parse(const char *s, const char *p, IpSet *ipSet)
 
     if( p != NULL && *p )
     {
-        n = atoi(p);
-        if( n < 0 )
+        if( strspn(p, "0123456789") != strlen(p) )
         {
-            n = -1;
-        } else if( n > L ) {
+            return -1;
+        }
+
+        n = atoi(p);
+        if( n < 0 || n > L ) {
             n = L;
         }
 
-        L = n;
         if( IpAddr_Is6(ipAddr) )
         {
             ipSet->Ip.Zone = Z6noz;
-            L += 10;
-        }
-        if( L < 16 )
-        {
-            int i = 0;
-            for( ; L > 0; L -= 8, i++ )
-            {
-                ipAddr->Addr[i] &= ~(0xff >> (L >= 8 ? 8 : L));
-            }
         }
     } else {
         n = L;
     }
 
-    ipSet->PrefixBits = n;
+    IpSet_Mask(ipSet, n);
 
     return 0;
 }
 
-
-static int Contain(IpElement *New, IpElement *Elm)
+/* A total order of masked addresses: type, prefix bits, value, and then zone */
+static int Compare(const IpElement *New, const IpElement *Elm)
 {
-    IpSet *ipSetNew = &(New->IpSet);
-    IpSet *ipSetElm = &(Elm->IpSet);
-    IpAddr *ipAddrNew = &(ipSetNew->Ip);
-    IpAddr *ipAddrElm = &(ipSetElm->Ip);
-    int BitsNew;
-    int BitsElm;
-
-    if( IpAddr_IsValid(ipAddrElm) == FALSE )
+    const IpSet *ipSetNew = &(New->IpSet);
+    const IpSet *ipSetElm = &(Elm->IpSet);
+    int ret;
+
+    ret = IpAddr_BitLength(&(ipSetNew->Ip)) - IpAddr_BitLength(&(ipSetElm->Ip));
+    if( ret != 0 )
     {
-        return -1;
+        return ret;
     }
 
-    BitsNew = IpAddr_BitLength(ipAddrNew);
-    BitsElm = IpAddr_BitLength(ipAddrElm);
-
-    /* 1st: type */
-    if( BitsNew != BitsElm )
+    ret = ipSetNew->PrefixBits - ipSetElm->PrefixBits;
+    if( ret != 0 )
     {
-        return  BitsNew - BitsElm;
-    } else {
-        unsigned char *bn = ipAddrNew->Addr;
-        unsigned char *be = ipAddrElm->Addr;
-        int prefixBitsNew = ipSetNew->PrefixBits;
-        int prefixBitsElm = ipSetElm->PrefixBits;
-        int ret = 0;
-
-        /* 2nd: prefix value */
-        if( BitsElm == 32 )
-        {
-            bn += 12;
-            be += 12;
-        }
-        for(; prefixBitsElm >= 32; prefixBitsElm -= 32)
-        {
-            ret = memcmp(bn, be, 4);
-            if( ret != 0 )
-            {
-                return ret;
-            }
-            bn += 4;
-            be += 4;
-        }
-        if( prefixBitsElm > 0 ) {
-            uint32_t u32New, u32Elm, mask;
-            mask = htonl(~(~0U >> prefixBitsElm));
-            u32New = *(uint32_t *)bn & mask;
-            u32Elm = *(uint32_t *)be & mask;
-            ret = memcmp(&u32New, &u32Elm, 4);
-        }
-
-        /* 3rd: prefix bits */
-        if( ret == 0 && prefixBitsNew < prefixBitsElm)
-        {
-            ret = 1;
-        }
+        return ret;
+    }
 
-        /* 4th: zone */
-        if( ret == 0 )
-        {
-            if( IpAddr_HasZone(ipAddrElm) )
-            {
-                if( IpAddr_HasZone(ipAddrNew) )
-                {
-                    return strcmp(ipAddrNew->Zone, ipAddrElm->Zone);
-                } else {
-                    return 1;
-                }
-            }
-        }
+    ret = memcmp(ipSetNew->Ip.Addr, ipSetElm->Ip.Addr, 16);
+    if( ret != 0 )
+    {
+        return ret;
+    }
 
+    ret = IpAddr_HasZone(&(ipSetNew->Ip)) - IpAddr_HasZone(&(ipSetElm->Ip));
+    if( ret != 0 || !IpAddr_HasZone(&(ipSetNew->Ip)) )
+    {
         return ret;
     }
+
+    return strcmp(ipSetNew->Ip.Zone, ipSetElm->Ip.Zone);
 }
 
 
@@ -229,12 +199,12 @@ void IpChunk_Free(IpChunk *ic)
 
 int IpChunk_Init(IpChunk *ic)
 {
-    if( Bst_Init(&(ic->AddrChunk), sizeof(IpElement), (CompareFunc)Contain) != 0 )
+    if( Bst_Init(&(ic->AddrChunk), sizeof(IpElement), (CompareFunc)Compare) != 0 )
     {
         return -1;
     }
 
-    if( Bst_Init(&(ic->CidrChunk), sizeof(IpElement), (CompareFunc)Contain) != 0 )
+    if( Bst_Init(&(ic->CidrChunk), sizeof(IpElement), (CompareFunc)Compare) != 0 )
     {
         goto EXIT_1;
     }
@@ -341,7 +311,14 @@ BOOL IpChunk_Find(IpChunk *ic, unsigned char *Ip, int IpBytes, int *Type, const
     Result = ic->AddrChunk.Search(&(ic->AddrChunk), &Key, NULL);
     if( Result == NULL )
     {
-        Result = ic->CidrChunk.Search(&(ic->CidrChunk), &Key, NULL);
+        int Bits;
+
+        /* The most specific one first */
+        for( Bits = IpBytes * 8; Result == NULL && Bits >= 0; --Bits )
+        {
+            IpSet_Mask(&(Key.IpSet), Bits);
+            Result = ic->CidrChunk.Search(&(ic->CidrChunk), &Key, NULL);
+        }
     }
 
     if( Result == NULL )
diff --git a/ipmisc.c b/ipmisc.c
index ce04ef3..d0bef3c 100755
--- a/ipmisc.c
+++ b/ipmisc.c
@@ -26,7 +26,11 @@ static int IPMisc_AddSubstituteFromString(IPMisc *m,
     {   /* IPv6 */
         char    IpSubstituter[16];
 
-        IPv6AddressToNum(Substituter, IpSubstituter);
+        if( IPv6AddressToNum(Substituter, IpSubstituter) != 16 )
+        {
+            WARNING("Invalid IPSubstituting: %s %s\n", Ip, Substituter);
+            return -1;
+        }
 
         return IpChunk_Add(&(m->c),
                               Ip,
@@ -38,7 +42,11 @@ static int IPMisc_AddSubstituteFromString(IPMisc *m,
         /* IPv4 */
         char    IpSubstituter[4];
 
-        IPv4AddressToNum(Substituter, IpSubstituter);
+        if( IPv4AddressToNum(Substituter, IpSubstituter) != 4 )
+        {
+            WARNING("Invalid IPSubstituting: %s %s\n", Ip, Substituter);
+            return -1;
+        }
 
         return IpChunk_Add(&(m->c),
                              Ip,
@@ -99,6 +107,11 @@ static int IPMisc_Process(IPMisc *m,
             continue;
         }
 
+        if( i.DataLength != DataLength )
+        {
+            continue;
+        }
+
         RowDataPos = i.RowData(&i);
         if( IpChunk_Find(&(m->c),
                          (unsigned char *)RowDataPos,
@@ -350,7 +363,7 @@ static int IpMiscMapping_Load(void)
     return 0;
 
 EXIT_2:
-    IPMisc_Free(CurrIpMiscMapping);
+    IPMisc_Free(IpMiscMapping);
 EXIT_1:
     SafeFree(IpMiscMapping);
 
-- 
2.43.0


From ce258db389ded7befb7a5bde432e5d564a52969f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:24 +0000
Subject: [PATCH 32/59] fix: serve TCP clients independently of each other,
 whatever they send, and close their connections

---
 iheader.c     |  14 +-
 iheader.h     |   1 +
 tcpfrontend.c | 429 +++++++++++++++++++++++++++++++++++++++-----------
 tcpfrontend.h |   4 +
 4 files changed, 348 insertions(+), 100 deletions(-)

diff --git a/iheader.c b/iheader.c
index 3541e9b..53c89ce 100755
--- a/iheader.c
+++ b/iheader.c
@@ -4,6 +4,7 @@
 #include "dnsgenerator.h"
 #include "common.h"
 #include "logs.h"
+#include "tcpfrontend.h"
 
 static BOOL ap = FALSE;
 
@@ -102,6 +103,7 @@ int IHeader_Fill(IHeader *h,
     }
 
     h->SendBackSocket = SendBackSocket;
+    h->ConnectionId = 0;
 
     if( Agent != NULL )
     {
@@ -191,12 +193,12 @@ int MsgContext_SendBack(MsgContext *MsgCtx)
 
         DNSSetTcpLength(Content, h->EntityLength);
 
-        if( send(h->SendBackSocket,
-                 Content,
-                 Length,
-                 MSG_NOSIGNAL
-                 )
-            != Length )
+        if( TcpFrontend_SendBack(h->SendBackSocket,
+                                 h->ConnectionId,
+                                 Content,
+                                 Length
+                                 )
+            != 0 )
         {
             /** TODO: Show error */
             return -112;
diff --git a/iheader.h b/iheader.h
index 6c3264e..b3a3fe8 100755
--- a/iheader.h
+++ b/iheader.h
@@ -19,6 +19,7 @@ struct _IHeader{
 
     Address_Type    BackAddress;    /* UDP requires it while TCP doesn't */
     SOCKET          SendBackSocket;
+    uint32_t        ConnectionId;   /* TCP */
 
     char            Domain[256];
     uint32_t        HashValue;
diff --git a/tcpfrontend.c b/tcpfrontend.c
index 8cc2868..17bf558 100644
--- a/tcpfrontend.c
+++ b/tcpfrontend.c
@@ -7,8 +7,317 @@
 
 extern BOOL Ipv6_Enabled;
 
+/* How long to keep a half-closed connection for the pending replies, in seconds */
+#define HALF_CLOSED_KEEP    10
+
+/* More clients than these supersede the least recently active one */
+#define MAX_CLIENTS         (FD_SETSIZE / 2)
+
+#define LEFT_LENGTH  (SOCKET_CONTEXT_LENGTH - sizeof(IHeader))
+
+typedef struct _TcpClient TcpClient;
+
+struct _TcpClient {
+    TcpClient       *Next;
+    SOCKET          Sock;
+    uint32_t        Id;         /* Never 0. A closed SOCKET value could be reused */
+    Address_Type    Addr;
+    int             Pending;    /* Queries without replies */
+    BOOL            Broken;     /* Sending failed */
+    time_t          HalfClosed; /* The time of EOF, 0 for none */
+    int             Received;
+    char            Buffer[2 + LEFT_LENGTH];
+};
+
+typedef struct _FrontendItem {
+    sa_family_t     family;     /* For listening sockets */
+    TcpClient       *Client;    /* NULL for listening sockets */
+} FrontendItem;
+
 static SocketPuller Frontend;
 
+/* Clients are added and removed by the working thread only. The most recently active one comes first. */
+static TcpClient        *Clients = NULL;
+static int              ClientCount = 0;
+static uint32_t         ClientId = 0;
+static EFFECTIVE_LOCK   ClientsLock;
+
+int TcpFrontend_SendBack(SOCKET Sock, uint32_t Id, const char *Data, int Length)
+{
+    int ret = -1;
+    TcpClient *c;
+
+    EFFECTIVE_LOCK_GET(ClientsLock);
+
+    for( c = Clients; c != NULL; c = c->Next )
+    {
+        if( c->Sock == Sock && c->Id == Id )
+        {
+            break;
+        }
+    }
+
+    if( c != NULL && !c->Broken )
+    {
+        --(c->Pending);
+
+        if( send(Sock, Data, Length, MSG_NOSIGNAL) == Length )
+        {
+            ret = 0;
+        } else {
+            /* Nothing more could be sent correctly. */
+            c->Broken = TRUE;
+            shutdown(Sock, 2);
+        }
+    }
+
+    EFFECTIVE_LOCK_RELEASE(ClientsLock);
+
+    return ret;
+}
+
+/* It has been deleted from `Frontend' */
+static void TcpFrontend_Close(TcpClient *Client)
+{
+    TcpClient **c;
+
+    EFFECTIVE_LOCK_GET(ClientsLock);
+
+    for( c = &Clients; *c != Client; c = &((*c)->Next) );
+    *c = Client->Next;
+    --ClientCount;
+    CLOSE_SOCKET(Client->Sock);
+
+    EFFECTIVE_LOCK_RELEASE(ClientsLock);
+
+    SafeFree(Client);
+}
+
+static int TcpFrontend_CloseLeastActive(void)
+{
+    TcpClient *c = Clients;
+
+    if( c == NULL )
+    {
+        return -1;
+    }
+
+    for( ; c->Next != NULL; c = c->Next );
+
+    if( c->HalfClosed == 0 )
+    {
+        Frontend.Del(&Frontend, c->Sock);
+    }
+
+    TcpFrontend_Close(c);
+
+    return 0;
+}
+
+static void TcpFrontend_SetMostActive(TcpClient *Client)
+{
+    TcpClient **c;
+
+    EFFECTIVE_LOCK_GET(ClientsLock);
+
+    for( c = &Clients; *c != Client; c = &((*c)->Next) );
+    *c = Client->Next;
+    Client->Next = Clients;
+    Clients = Client;
+
+    EFFECTIVE_LOCK_RELEASE(ClientsLock);
+}
+
+static void TcpFrontend_Accept(SOCKET Sock, const FrontendItem *Listener)
+{
+    FrontendItem    Item;
+    TcpClient       *c;
+    socklen_t       AddrLen;
+
+    c = SafeMalloc(sizeof(TcpClient));
+    if( c == NULL )
+    {
+        ERRORMSG("No enough memory, 74.\n");
+        SLEEP(100);
+        return;
+    }
+
+    if( ClientCount >= MAX_CLIENTS )
+    {
+        TcpFrontend_CloseLeastActive();
+    }
+
+    AddrLen = sizeof(c->Addr.Addr);
+    c->Sock = accept(Sock, (struct sockaddr *)&(c->Addr.Addr), &AddrLen);
+    if( c->Sock == INVALID_SOCKET )
+    {
+#ifndef _WIN32
+        int Err = GET_LAST_ERROR();
+#endif
+
+        SafeFree(c);
+
+#ifndef _WIN32
+        if( (Err == EMFILE || Err == ENFILE) && TcpFrontend_CloseLeastActive() == 0 )
+        {
+            return;
+        }
+#endif
+
+        SLEEP(10);
+        return;
+    }
+
+    c->Addr.family = Listener->family;
+    c->Pending = 0;
+    c->Broken = FALSE;
+    c->HalfClosed = 0;
+    c->Received = 0;
+
+    if(
+#ifndef _WIN32
+        c->Sock >= FD_SETSIZE ||
+#endif
+        SetSocketNonBlock(c->Sock, TRUE) != 0
+        )
+    {
+        CLOSE_SOCKET(c->Sock);
+        SafeFree(c);
+        return;
+    }
+
+    EFFECTIVE_LOCK_GET(ClientsLock);
+    if( ++ClientId == 0 )
+    {
+        ++ClientId;
+    }
+    c->Id = ClientId;
+    c->Next = Clients;
+    Clients = c;
+    ++ClientCount;
+    EFFECTIVE_LOCK_RELEASE(ClientsLock);
+
+    memset(&Item, 0, sizeof(FrontendItem));
+    Item.Client = c;
+    Frontend.Add(&Frontend, c->Sock, &Item, sizeof(FrontendItem));
+}
+
+/* Returns whether there are still half-closed connections */
+static BOOL TcpFrontend_CloseHalfClosed(void)
+{
+    BOOL        Left = FALSE;
+    TcpClient   *c, *Next;
+    time_t      Now = time(NULL);
+
+    for( c = Clients; c != NULL; c = Next )
+    {
+        BOOL Done;
+
+        Next = c->Next;
+
+        if( c->HalfClosed == 0 )
+        {
+            continue;
+        }
+
+        EFFECTIVE_LOCK_GET(ClientsLock);
+        Done = c->Pending <= 0 || c->Broken;
+        EFFECTIVE_LOCK_RELEASE(ClientsLock);
+
+        if( Done || Now - c->HalfClosed > HALF_CLOSED_KEEP || Now < c->HalfClosed )
+        {
+            TcpFrontend_Close(c);
+        } else {
+            Left = TRUE;
+        }
+    }
+
+    return Left;
+}
+
+static void TcpFrontend_Query(TcpClient *c, char *ReceiveBuffer, const char *Query, int Length)
+{
+    IHeader *Header = (IHeader *)ReceiveBuffer;
+    char    Agent[sizeof(Header->Agent)];
+
+    if( c->Addr.family == AF_INET )
+    {
+        IPv4AddressToAsc(&(c->Addr.Addr.Addr4.sin_addr), Agent);
+    } else {
+        IPv6AddressToAsc(&(c->Addr.Addr.Addr6.sin6_addr), Agent);
+    }
+
+    memcpy(IHEADER_TAIL(Header), Query, Length);
+
+    if( IHeader_Fill(Header,
+                     FALSE,
+                     IHEADER_TAIL(Header),
+                     Length,
+                     NULL,
+                     c->Sock,
+                     c->Addr.family,
+                     Agent
+                     )
+        != 0 )
+    {
+        INFO("Invalid data received from TCP client %s.\n", Agent);
+        return;
+    }
+
+    Header->ConnectionId = c->Id;
+
+    EFFECTIVE_LOCK_GET(ClientsLock);
+    ++(c->Pending);
+    EFFECTIVE_LOCK_RELEASE(ClientsLock);
+
+    MMgr_Send(ReceiveBuffer, SOCKET_CONTEXT_LENGTH);
+}
+
+/* Return FALSE if there is nothing to be received any more. */
+static BOOL TcpFrontend_Receive(TcpClient *c, char *ReceiveBuffer)
+{
+    int State, Pos = 0;
+
+    State = recv(c->Sock, c->Buffer + c->Received, sizeof(c->Buffer) - c->Received, 0);
+    if( State <= 0 )
+    {
+        if( State < 0 && FatalErrorDecideding(GET_LAST_ERROR()) == 0 )
+        {
+            return TRUE;
+        }
+
+        c->Broken |= State < 0;
+        return FALSE;
+    }
+
+    c->Received += State;
+    TcpFrontend_SetMostActive(c);
+
+    while( c->Received - Pos >= 2 )
+    {
+        int TCPLength = GET_16_BIT_U_INT(c->Buffer + Pos);
+
+        if( TCPLength > LEFT_LENGTH )
+        {
+            WARNING("TCP client segment is too large, discarded.\n");
+            return FALSE;
+        }
+
+        if( c->Received - Pos - 2 < TCPLength )
+        {
+            break;
+        }
+
+        TcpFrontend_Query(c, ReceiveBuffer, c->Buffer + Pos + 2, TCPLength);
+        Pos += 2 + TCPLength;
+    }
+
+    c->Received -= Pos;
+    memmove(c->Buffer, c->Buffer + Pos, c->Received);
+
+    return TRUE;
+}
+
 static void
 #ifdef WIN32
 WINAPI
@@ -16,10 +325,6 @@ WINAPI
 TcpFrontend_Work(void *Unused)
 {
     char *ReceiveBuffer;
-    IHeader *Header;
-
-    #define LEFT_LENGTH  (SOCKET_CONTEXT_LENGTH - sizeof(IHeader))
-    char *Entity;
 
     ReceiveBuffer = SafeMalloc(SOCKET_CONTEXT_LENGTH);
     if( ReceiveBuffer == NULL )
@@ -28,110 +333,43 @@ TcpFrontend_Work(void *Unused)
         return;
     }
 
-    Header = (IHeader *)ReceiveBuffer;
-    Entity = ReceiveBuffer + sizeof(IHeader);
-
     /* Loop */
     while( TRUE )
     {
-        SOCKET sock, sock_c;
-        Address_Type *ClientAddr, ClientAddr_c;
-        BOOL IsNewConnected;
-
-        int RecvState;
-        uint16_t TCPLength;
-
-        char Agent[sizeof(Header->Agent)];
+        SOCKET          sock;
+        FrontendItem    *Item;
+        TcpClient       *Client;
+        BOOL            HalfClosed = TcpFrontend_CloseHalfClosed();
+        struct timeval  TimeOut = {1, 0};
+        int             Err;
 
         sock = Frontend.Select(&Frontend,
-                               NULL,
-                               (void **)&ClientAddr,
+                               HalfClosed ? &TimeOut : NULL,
+                               (void **)&Item,
                                TRUE,
                                FALSE,
-                               NULL
+                               &Err
                                );
 
         if( sock == INVALID_SOCKET )
         {
-            ERRORMSG("Fatal error 58.\n");
-            break;
-        }
-
-        if( ((struct sockaddr *)ClientAddr)->sa_family == AF_UNSPEC )
-        {
-            socklen_t AddrLen = sizeof(Address_Type);
-
-            sock_c = accept(sock, (struct sockaddr *)&(ClientAddr_c.Addr), &AddrLen);
-            if(sock_c == INVALID_SOCKET)
+            if( HalfClosed && Err == 0 )
             {
                 continue;
             }
 
-            IsNewConnected = TRUE;
-            ClientAddr_c.family = ClientAddr->family;
-            ClientAddr = &ClientAddr_c;
-        } else {
-            IsNewConnected = FALSE;
-            sock_c = sock;
-        }
-
-        if( ClientAddr->family == AF_INET )
-        {
-            IPv4AddressToAsc(&(((struct sockaddr_in *)ClientAddr)->sin_addr), Agent);
-        } else {
-            IPv6AddressToAsc(&(((struct sockaddr_in6 *)ClientAddr)->sin6_addr), Agent);
+            ERRORMSG("Fatal error 58.\n");
+            break;
         }
 
-        RecvState = recv(sock_c, (char *)&TCPLength, 2, 0);
-        if( RecvState == 2 )
-        {
-            TCPLength = ntohs(TCPLength);
-            if( TCPLength <= LEFT_LENGTH )
-            {
-                RecvState = recv(sock_c, Entity, TCPLength, 0);
-                if( RecvState == TCPLength )
-                {
-                    if( IHeader_Fill(Header,
-                                     FALSE,
-                                     Entity,
-                                     RecvState,
-                                     NULL,
-                                     sock_c,
-                                     ClientAddr->family,
-                                     Agent
-                                     )
-                        == 0 )
-                    {
-                        MMgr_Send(ReceiveBuffer, SOCKET_CONTEXT_LENGTH);
-                    } else {
-                        INFO("Invalid data received from TCP client %s.\n", Agent);
-                    }
-
-                    if( IsNewConnected )
-                    {
-                        Frontend.Add(&Frontend, sock_c, ClientAddr, sizeof(Address_Type));
-                    }
-
-                    continue;
-
-                } else {
-                    INFO("Invalid data received from TCP client %s.\n", Agent);
-                }
-            } else {
-                WARNING("TCP client %s segment is too large, discarded.\n", Agent);
-            }
+        Client = Item->Client;
 
-            CLOSE_SOCKET(sock_c);
-        } else if( RecvState == 1 )
+        if( Client == NULL )
         {
-            INFO("Invalid data received from TCP client %s.\n", Agent);
-            CLOSE_SOCKET(sock_c);
-        }
-
-        /* recv failed */
-        if( IsNewConnected == FALSE )
-        {
-            Frontend.Del(&Frontend, sock_c);
+            TcpFrontend_Accept(sock, Item);
+        } else if( !TcpFrontend_Receive(Client, ReceiveBuffer) ) {
+            Frontend.Del(&Frontend, sock);
+            Client->HalfClosed = time(NULL);
         }
     }
 
@@ -171,14 +409,17 @@ int TcpFrontend_Init(ConfigFileInfo *ConfigInfo, BOOL StartWork)
         return -20;
     }
 
-    if( SocketPuller_Init(&Frontend, sizeof(Address_Type)) != 0 )
+    if( SocketPuller_Init(&Frontend, sizeof(FrontendItem)) != 0 )
     {
         return -19;
     }
 
+    EFFECTIVE_LOCK_INIT(ClientsLock);
+
     while( (One = i.Next(&i)) != NULL )
     {
-        Address_Type a, ClientAddr;
+        Address_Type a;
+        FrontendItem Item;
         sa_family_t f;
 
         SOCKET sock;
@@ -223,9 +464,9 @@ int TcpFrontend_Init(ConfigFileInfo *ConfigInfo, BOOL StartWork)
             Ipv6_Enabled = TRUE;
         }
 
-        memset(&ClientAddr, 0, sizeof(Address_Type));
-        ClientAddr.family = f;
-        Frontend.Add(&Frontend, sock, &ClientAddr, sizeof(Address_Type));
+        memset(&Item, 0, sizeof(FrontendItem));
+        Item.family = f;
+        Frontend.Add(&Frontend, sock, &Item, sizeof(FrontendItem));
         INFO("TCP interface %s opened.\n", One);
         ++Count;
     }
diff --git a/tcpfrontend.h b/tcpfrontend.h
index 739b094..0574d7c 100644
--- a/tcpfrontend.h
+++ b/tcpfrontend.h
@@ -2,9 +2,13 @@
 #define TCPFRONTEND_H_INCLUDED
 
 #include "readconfig.h"
+#include "common.h"
 
 void TcpFrontend_StartWork(void);
 
 int TcpFrontend_Init(ConfigFileInfo *ConfigInfo, BOOL StartWork);
 
+/* Send a message to the client. Its connection may be gone already. */
+int TcpFrontend_SendBack(SOCKET Sock, uint32_t Id, const char *Data, int Length);
+
 #endif /* TCPFRONTEND_H_INCLUDED */
-- 
2.43.0


From 34d19e37d94eb10af0885c23f9b7dc5d8c03be71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:15 +0000
Subject: [PATCH 33/59] fix: with AP on, add the EDNS record to queries over
 TCP, whose answers are required to have one

---
 tcpm.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tcpm.c b/tcpm.c
index ea64534..493247c 100755
--- a/tcpm.c
+++ b/tcpm.c
@@ -523,6 +523,8 @@ PUBFUNC int TcpM_Send(TcpM *m,
     int State;
     const IHeader *h = (IHeader *)Buffer;
 
+    MsgContext_AddFakeEdns((MsgContext *)Buffer, BufferLength);
+
     State = sendto(m->Incoming,
                    Buffer,
                    sizeof(IHeader) + h->EntityLength,
-- 
2.43.0


From bf8b1554c710ab4d26ed321dda99ea59a176a742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:38 +0000
Subject: [PATCH 34/59] fix: TCP upstreams: partial sends, trickling or
 unsolicited data and silent connections

---
 tcpm.c | 116 +++++++++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 92 insertions(+), 24 deletions(-)

diff --git a/tcpm.c b/tcpm.c
index 493247c..333503c 100755
--- a/tcpm.c
+++ b/tcpm.c
@@ -18,6 +18,7 @@ extern BOOL Ipv6_Enabled;
 #define TIMEOUT_ms_SEND 2000
 #define TIMEOUT_ms_RECV 2000
 #define TIMEOUT_ms_ALIVE    100
+#define TIMEOUT_s_OLD       (TIMEOUT * 2)
 
 extern int TCPM_Keep_Alive;
 static const struct timeval TimeOut_Const = {TIMEOUT, 0};
@@ -46,6 +47,46 @@ static void SweepWorks(MsgContext *MsgCtx, int Number, TcpM *Module)
     }
 }
 
+typedef struct _TcpM_Old_Arg
+{
+    SOCKET  ExceptFor;
+    SOCKET  Old;
+} TcpM_Old_Arg;
+
+static int TcpM_FindOld(Bst *t, const SocketUnit *Data, TcpM_Old_Arg *Arg)
+{
+    const SOCKET *s = (const SOCKET *)Data;
+    TcpContext TcpCtx;
+
+    memcpy(&TcpCtx, s + 1, sizeof(TcpContext));
+
+    if( *s != Arg->ExceptFor && time(NULL) - TcpCtx.LastActivity > TIMEOUT_s_OLD )
+    {
+        Arg->Old = *s;
+        return 1;
+    }
+
+    return 0;
+}
+
+/* Close the connections that have been waited for too long. */
+static void TcpM_CloseOld(SocketPuller *Puller, SOCKET ExceptFor)
+{
+    while( TRUE )
+    {
+        TcpM_Old_Arg Arg = {ExceptFor, INVALID_SOCKET};
+
+        Puller->p.t.Enum(&(Puller->p.t), (Bst_Enum_Callback)TcpM_FindOld, &Arg);
+        if( Arg.Old == INVALID_SOCKET )
+        {
+            break;
+        }
+
+        Puller->Del(Puller, Arg.Old);
+        CLOSE_SOCKET(Arg.Old);
+    }
+}
+
 static void TcpM_Connect_Recycle(SocketPuller *Puller, SocketPuller **Backups)
 {
     SocketPuller *p;
@@ -103,6 +144,10 @@ static SOCKET TcpM_Connect_GetAvailable(SocketPuller *p, TcpContext **TcpCtx)
             if( time(NULL) - (*TcpCtx)->LastActivity > TCPM_Keep_Alive ) {
                 INFO("Existing TCP connection expired, discard.\n");
                 CLOSE_SOCKET(s);
+            } else if( SocketIsStillReadable(s, 0) ) {
+                /* It has been closed, or has something nobody asked for. */
+                INFO("Existing TCP connection unusable, discard.\n");
+                CLOSE_SOCKET(s);
             } else {
                 break;
             }
@@ -176,6 +221,7 @@ static int TcpM_Connect(TcpM *m, int ServerIndex, BOOL IsProxy)
     }
 
     TcpM_Connect_Recycle(Puller, Pullers);
+    TcpM_CloseOld(Puller, INVALID_SOCKET);
 
     srand(time(NULL));
     Shift = rand();
@@ -246,28 +292,36 @@ static int TcpM_Connect(TcpM *m, int ServerIndex, BOOL IsProxy)
 
 static int TcpM_SendWrapper(SOCKET Sock, const char *Start, int Length)
 {
+    int Sent = 0;
     time_t t = time(NULL);
 
-    while( send(Sock, Start, Length, MSG_NOSIGNAL) != Length )
+    while( Sent < Length )
     {
-        int LastError = GET_LAST_ERROR();
-        if( FatalErrorDecideding(LastError) != 0 ||
-                !SocketIsWritable(Sock, TIMEOUT_ms_SEND) ||
-                time(NULL) - t > TIMEOUT_ms_SEND / 1000
-                )
+        int State = send(Sock, Start + Sent, Length - Sent, MSG_NOSIGNAL);
+
+        if( State > 0 )
         {
-            ShowSocketError("Sending to TCP server or proxy failed.", LastError);
-            return (-1) * LastError;
+            Sent += State;
+        } else {
+            int LastError = GET_LAST_ERROR();
+            if( FatalErrorDecideding(LastError) != 0 ||
+                    !SocketIsWritable(Sock, TIMEOUT_ms_SEND) ||
+                    time(NULL) - t > TIMEOUT_ms_SEND / 1000
+                    )
+            {
+                ShowSocketError("Sending to TCP server or proxy failed.", LastError);
+                return -1;
+            }
         }
     }
 
     return Length;
 }
 
-static int TcpM_RecvWrapper(SOCKET Sock, char *Buffer, int BufferSize)
+/* `t' is when the receiving started. */
+static int TcpM_RecvWrapper(SOCKET Sock, char *Buffer, int BufferSize, time_t t)
 {
     int Recvlength;
-    time_t t = time(NULL);
 
     while( (Recvlength = recv(Sock, Buffer, BufferSize, 0)) < 0 )
     {
@@ -289,10 +343,11 @@ static int TcpM_RecvWrapper(SOCKET Sock, char *Buffer, int BufferSize)
 static int TcpM_RecvAll(SOCKET Sock, char *Buffer, int Length)
 {
     int Received = 0;
+    time_t t = time(NULL);
 
     while( Received < Length )
     {
-        int State = TcpM_RecvWrapper(Sock, Buffer + Received, Length - Received);
+        int State = TcpM_RecvWrapper(Sock, Buffer + Received, Length - Received, t);
 
         if( State <= 0 )
         {
@@ -606,6 +661,7 @@ TcpM_Works(TcpM *m)
             }
             m->Context.Sweep(&(m->Context), (SweepCallback)SweepWorks, m);
             NumberOfCumulated = 0;
+            TcpM_CloseOld(p, m->Incoming);
             continue;
         }
 
@@ -626,6 +682,8 @@ TcpM_Works(TcpM *m)
                              NULL
                              );
 
+            TcpM_CloseOld(p, m->Incoming);
+
             if( State > 0 )
             {
                 MsgContext *MsgCtxStored;
@@ -694,21 +752,31 @@ TcpM_Works(TcpM *m)
                 continue;
             }
 
-            p2 = m->Agents[TcpCtx->ServerIndex];
-            TcpCtx->LastActivity = time(NULL);
-            TcpCtx->MsgCtx = NULL;
+            State = IHeader_Fill(Header,
+                                 FALSE,
+                                 Entity,
+                                 State,
+                                 NULL,
+                                 INVALID_SOCKET,
+                                 AF_UNSPEC,
+                                 NULL
+                                 );
+
+            if( State == 0 &&
+                TcpCtx->MsgCtxQid == DNSGetQueryIdentifier(Entity) &&
+                TcpCtx->MsgCtxHash == Header->HashValue
+                )
+            {
+                p2 = m->Agents[TcpCtx->ServerIndex];
+                TcpCtx->LastActivity = time(NULL);
+                TcpCtx->MsgCtx = NULL;
+            } else {
+                /* Not what the connection is waiting for. */
+                p2 = p;
+            }
             p2->Add(p2, s, TcpCtx, sizeof(TcpContext));
 
-            if( IHeader_Fill(Header,
-                             FALSE,
-                             Entity,
-                             State,
-                             NULL,
-                             INVALID_SOCKET,
-                             AF_UNSPEC,
-                             NULL
-                             )
-                != 0 )
+            if( State != 0 )
             {
                 INFO("Invalid data received from TCP server.\n");
                 continue;
-- 
2.43.0


From 94bd88f27f70f7996bf85b856a1e0c3aa6bf5031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:14 +0000
Subject: [PATCH 35/59] fix: appending to the last string of a list whose
 strings are empty or removed

---
 stringlist.c | 42 +++++++++++++++---------------------------
 1 file changed, 15 insertions(+), 27 deletions(-)

diff --git a/stringlist.c b/stringlist.c
index a3445db..1311d87 100755
--- a/stringlist.c
+++ b/stringlist.c
@@ -75,14 +75,12 @@ static int StringList_AppendLast(StringList *s,
                                  )
 {
     StableBuffer            *sb;
-    StableBufferIterator    i;
-    char                    *b;
-
-    char *l;
-    int Used;
+    StringListIterator      i;
+    const char              *Str;
+    const char              *Last = NULL;
 
     int StrLength; /* Including terminated-0 */
-    int LastHalfLength;
+    int LastLength;
     char *NewStr;
     char *NewlyAdded;
 
@@ -93,46 +91,36 @@ static int StringList_AppendLast(StringList *s,
 
     sb = &(s->Buffer);
 
-    if( StableBufferIterator_Init(&i, sb) != 0 )
+    if( StringListIterator_Init(&i, s) != 0 )
     {
         return -2;
     }
 
-    b = i.ToLast(&i);
-    if( b == NULL )
+    while( (Str = i.Next(&i)) != NULL )
     {
-        return -3;
+        Last = Str;
     }
 
-    Used = i.CurrentBlockUsed(&i);
-    for( l = b + Used - 2; l > b; --l )
+    if( Last == NULL )
     {
-        if( *l == '\0' )
-        {
-            ++l;
-            break;
-        }
-    }
-
-    if( l <= b )
-    {
-        l = b;
+        return -3;
     }
 
     StrLength = strlen(str) + 1; /* Including terminated-0 */
-    LastHalfLength = Used - (l - b); /* Including terminated-0 */
-    NewStr = SafeMalloc(StrLength + LastHalfLength - 1);
+    LastLength = strlen(Last);
+    NewStr = SafeMalloc(LastLength + StrLength);
     if( NewStr == NULL )
     {
         return -4;
     }
 
-    strcpy(NewStr, l);
+    strcpy(NewStr, Last);
     strcat(NewStr, str);
 
-    i.RemoveLastNBytesOfCurrentBlock(&i, LastHalfLength);
+    while( i.Next(&i) != Last );
+    i.Remove(&i);
 
-    NewlyAdded = sb->Add(sb, NewStr, StrLength + LastHalfLength - 1, FALSE);
+    NewlyAdded = sb->Add(sb, NewStr, LastLength + StrLength, FALSE);
 
     SafeFree(NewStr);
 
-- 
2.43.0


From 5b867acf8f64e5c72b33b7f1a8d60377e59b107f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:28 +0000
Subject: [PATCH 36/59] fix: sort the elements of a downward growing array, not
 those below them

---
 array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/array.c b/array.c
index 6355946..8a69ff4 100755
--- a/array.c
+++ b/array.c
@@ -155,7 +155,7 @@ void Array_Sort(Array *a, int (*Compare)(const void *, const void *))
 {
     if( a->Allocated < 0 )
     {
-        qsort(a->Data - (a->Used * a->DataLength), a->Used, a->DataLength, Compare);
+        qsort(a->Data - ((a->Used - 1) * a->DataLength), a->Used, a->DataLength, Compare);
     } else {
         qsort(a->Data, a->Used, a->DataLength, Compare);
     }
-- 
2.43.0


From f403e3bf41f6e25b7d1943d871c6eb04255c3065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:55 +0000
Subject: [PATCH 37/59] fix: overlong lines and doubly commented lines are read
 as what they say

---
 readconfig.c | 12 ++++++-
 readline.c   | 98 ++++++++++++++++++++++++++--------------------------
 readline.h   |  3 ++
 3 files changed, 63 insertions(+), 50 deletions(-)

diff --git a/readconfig.c b/readconfig.c
index e84d56e..28205e5 100755
--- a/readconfig.c
+++ b/readconfig.c
@@ -322,7 +322,7 @@ static void ParseString(ConfigOption *Option,
 
     while( ReadStatus != READ_DONE ){
 
-        ReadStatus = ReadLine(fp, Buffer, BufferLength);
+        ReadStatus = ReadLine_Rest(fp, Buffer, BufferLength);
         if( ReadStatus == READ_FAILED_OR_END )
             break;
 
@@ -358,6 +358,9 @@ static char *TrimPath(char *Path)
     }
 }
 
+/* The rest of an overlong line must not be taken for another line. */
+#define SKIP_REST(Status)   do { if( (Status) == READ_TRUNCATED ) ReadLine_GoToNextLine(Info->fp); } while (0)
+
 int ConfigRead(ConfigFileInfo *Info)
 {
     int             NumOfRead   =   0;
@@ -380,7 +383,10 @@ int ConfigRead(ConfigFileInfo *Info)
 
         ValuePos = SplitNameAndValue(Buffer, " \t=");
         if( ValuePos == NULL )
+        {
+            SKIP_REST(ReadStatus);
             continue;
+        }
 
         KeyName = Buffer;
 
@@ -394,6 +400,7 @@ int ConfigRead(ConfigFileInfo *Info)
 
         if( Option == NULL )
         {
+            SKIP_REST(ReadStatus);
             continue;
         }
 
@@ -435,15 +442,18 @@ int ConfigRead(ConfigFileInfo *Info)
         {
             case TYPE_INT32:
                 ParseInt32(Option, ValuePos);
+                SKIP_REST(ReadStatus);
                 break;
 
             case TYPE_BOOLEAN:
                 ParseBoolean(Option, ValuePos);
+                SKIP_REST(ReadStatus);
                 break;
 
             case TYPE_PATH:
                 if( ReadStatus != READ_DONE )
                 {
+                    SKIP_REST(ReadStatus);
                     break;
                 }
 
diff --git a/readline.c b/readline.c
index 2fd69aa..7a690d6 100755
--- a/readline.c
+++ b/readline.c
@@ -25,10 +25,13 @@ static BOOL ReachedLineEnd(FILE *fp, const char *str)
     {
         return TRUE;
     } else {
-        if( feof(fp) )
+        int c = getc(fp);
+
+        if( c == EOF )
         {
             return TRUE;
         } else {
+            ungetc(c, fp);
             return FALSE;
         }
     }
@@ -58,77 +61,74 @@ static void EliminateFootSpace(char *str)
 
     if( End >= str )
     {
-        for(; isspace(*End) && End >= str; --End);
+        for(; End >= str && isspace(*End); --End);
         *(End + 1) = '\0';
     }
 
 }
 
-ReadLineStatus ReadLine(FILE *fp, char *Buffer, int BufferSize)
+static void SkipRestOfLine(FILE *fp)
 {
-    BOOL    ReachedEnd;
+    char BlackHole[128];
 
-START:
-    if( Buffer == NULL || fgets(Buffer, BufferSize, fp) == NULL )
-    {
-        return READ_FAILED_OR_END;
-    } else {
-        ReachedEnd = ReachedLineEnd(fp, Buffer);
-    }
+    while( fgets(BlackHole, sizeof(BlackHole), fp) != NULL &&
+           !ReachedLineEnd(fp, BlackHole)
+           );
+}
+
+ReadLineStatus ReadLine(FILE *fp, char *Buffer, int BufferSize)
+{
+    ReadLineStatus Status;
 
-    if( (ClearAnnotation(Buffer, '#') || ClearAnnotation(Buffer, ';')) != FALSE )
+    do
     {
-        if( ReachedEnd == FALSE )
+        Status = ReadLine_Rest(fp, Buffer, BufferSize);
+        if( Status == READ_FAILED_OR_END )
         {
-            char BlackHole[128];
-            do
-            {
-                if( fgets(BlackHole, sizeof(BlackHole), fp) == NULL )
-                {
-                    return READ_FAILED_OR_END;
-                }
-                ReachedEnd = ReachedLineEnd(fp, BlackHole);
-            }while( ReachedEnd == FALSE );
+            return Status;
         }
 
-        EliminateFootSpace(Buffer);
         EliminateHeadSpace(Buffer);
+    }
+    while( Status == READ_DONE && *Buffer == '\0' );
 
-        if( *Buffer == '\0' )
-        {
-            goto START;
-        } else {
-            return READ_DONE;
-        }
+    return Status;
+}
+
+ReadLineStatus ReadLine_Rest(FILE *fp, char *Buffer, int BufferSize)
+{
+    BOOL    ReachedEnd;
+    BOOL    Annotated;
 
+    if( Buffer == NULL || fgets(Buffer, BufferSize, fp) == NULL )
+    {
+        return READ_FAILED_OR_END;
     }
 
-    if( ReachedEnd == TRUE )
+    ReachedEnd = ReachedLineEnd(fp, Buffer);
+
+    Annotated = ClearAnnotation(Buffer, '#');
+    Annotated = ClearAnnotation(Buffer, ';') || Annotated;
+
+    if( !ReachedEnd && !Annotated )
     {
-        EliminateCRLF(Buffer);
-        EliminateFootSpace(Buffer);
-        EliminateHeadSpace(Buffer);
-        if( *Buffer == '\0' )
-        {
-            goto START;
-        } else {
-            return READ_DONE;
-        }
-    } else {
         return READ_TRUNCATED;
     }
+
+    if( !ReachedEnd )
+    {
+        SkipRestOfLine(fp);
+    }
+
+    EliminateCRLF(Buffer);
+    EliminateFootSpace(Buffer);
+
+    return READ_DONE;
 }
 
 ReadLineStatus ReadLine_GoToNextLine(FILE *fp)
 {
-    ReadLineStatus Status;
-    char Buffer[128];
+    SkipRestOfLine(fp);
 
-    do
-    {
-        Status = ReadLine(fp, Buffer, sizeof(Buffer));
-    }
-    while( Status == READ_TRUNCATED );
-
-    return Status;
+    return feof(fp) ? READ_FAILED_OR_END : READ_DONE;
 }
diff --git a/readline.h b/readline.h
index 261fc89..c9979b0 100755
--- a/readline.h
+++ b/readline.h
@@ -12,6 +12,9 @@ typedef enum _ReadLineStatus
 
 ReadLineStatus ReadLine(FILE *fp, char *Buffer, int BufferSize);
 
+/* Read the rest of a truncated line, which may be blank. */
+ReadLineStatus ReadLine_Rest(FILE *fp, char *Buffer, int BufferSize);
+
 ReadLineStatus ReadLine_GoToNextLine(FILE *fp);
 
 #endif /* READLINE_H_INCLUDED */
-- 
2.43.0


From cdd81b8e5de159e9c56ffae316aee8ebd0293ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:55 +0000
Subject: [PATCH 38/59] fix: a path that cannot be expanded crashed the program

---
 utils.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/utils.c b/utils.c
index 67ee105..ac91ab7 100755
--- a/utils.c
+++ b/utils.c
@@ -1003,6 +1003,11 @@ int ExpandPath(char *String, int BufferLength)
     wordexp_t Result;
 
     if( wordexp(String, &Result, 0) != 0 )
+    {
+        return -1;
+    }
+
+    if( Result.we_wordc == 0 )
     {
         wordfree(&Result);
         return -1;
-- 
2.43.0


From 15db6464a35b14cd3acae78232f3e345c3fab151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:55 +0000
Subject: [PATCH 39/59] fix: the path of a group file's domain list lost its
 case

---
 mmgr.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mmgr.c b/mmgr.c
index 6d93aa3..373aa47 100755
--- a/mmgr.c
+++ b/mmgr.c
@@ -388,11 +388,17 @@ static int Modules_InitFromFile(ModuleMap *ModuleMap, StringListIterator *i)
             break;
         }
 
+        Value = SplitNameAndValue(Buffer, " \t=");
         StrToLower(Buffer);
 
-        Value = SplitNameAndValue(Buffer, " \t=");
         if( Value != NULL )
         {
+            /* The case of a path matters. */
+            if( strcmp(Buffer, "list") != 0 )
+            {
+                StrToLower((char *)Value);
+            }
+
             StringChunk_Add(&Args, Buffer, Value, strlen(Value) + 1);
         } else {
             Domains.Add(&Domains, Buffer, NULL);
-- 
2.43.0


From 699dbbec6f56474bff6ce2f9c15c6c74c6acd534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:01 +0000
Subject: [PATCH 40/59] fix: the time taken by inline timed tasks delayed all
 other timed tasks

---
 timedtask.c | 77 ++++++++++++++++++++++++++---------------------------
 1 file changed, 38 insertions(+), 39 deletions(-)

diff --git a/timedtask.c b/timedtask.c
index 7bdae81..28e4f40 100755
--- a/timedtask.c
+++ b/timedtask.c
@@ -18,7 +18,7 @@ typedef struct _TaskInfo{
     DWORD   LeftTime;
 #else /* _WIN32 */
     struct timeval  TimeOut;
-    struct timeval  LeftTime;
+    struct timeval  DueTime;
 #endif /* _WIN32 */
 
     BOOL    Persistent;
@@ -65,6 +65,28 @@ static int Tv_Subtract(struct timeval *Minuend,
         return 1;
     }
 }
+
+static void TimeTask_GetTime(struct timeval *Now)
+{
+    struct timespec t = {0, 0};
+
+    clock_gettime(CLOCK_MONOTONIC, &t);
+    Now->tv_sec = t.tv_sec;
+    Now->tv_usec = t.tv_nsec / 1000;
+}
+
+static void TimeTask_SetDueTime(TaskInfo *i)
+{
+    TimeTask_GetTime(&(i->DueTime));
+
+    i->DueTime.tv_sec += i->TimeOut.tv_sec;
+    i->DueTime.tv_usec += i->TimeOut.tv_usec;
+    if( i->DueTime.tv_usec >= 1000000 )
+    {
+        i->DueTime.tv_usec -= 1000000;
+        ++(i->DueTime.tv_sec);
+    }
+}
 #endif /* _WIN32 */
 
 #ifdef _WIN32
@@ -89,29 +111,6 @@ static void TimeTask_ReduceTime(const DWORD tv)
         }
     }
 }
-#else /* _WIN32 */
-static void TimeTask_ReduceTime(const struct timeval *tv)
-{
-    LinkedQueueIterator i;
-    TaskInfo *ti;
-
-    if( tv == NULL )
-    {
-        /** TODO: Show fatal error */
-        return;
-    }
-
-    if( LinkedQueueIterator_Init(&i, &TimeQueue) != 0 )
-    {
-        /** TODO: Show fatal error */
-        return;
-    }
-
-    while( (ti = i.Next(&i)) != NULL )
-    {
-        Tv_Subtract(&(ti->LeftTime), tv);
-    }
-}
 #endif /* _WIN32 */
 
 static int TimeTask_ReallyAdd(TaskInfo *i)
@@ -131,7 +130,11 @@ TimeTask_RunTack(void *i)
 
     if( Info->Persistent )
     {
+#ifdef _WIN32
         Info->LeftTime = Info->TimeOut;
+#else /* _WIN32 */
+        TimeTask_SetDueTime(Info);
+#endif /* _WIN32 */
         if( Info->Asynchronous )
         {
 #ifdef _WIN32
@@ -242,7 +245,7 @@ TimeTask_Work(void *Unused)
 
     static TaskInfo *i = NULL;
     static struct timeval   *tv = NULL;
-    static struct timeval   Elapsed = {0, 0};
+    static struct timeval   Left, Now;
 
     FD_ZERO(&ReadSet);
     FD_SET(ReadFrom, &ReadSet);
@@ -255,8 +258,10 @@ TimeTask_Work(void *Unused)
         {
             tv = NULL;
         } else {
-            tv = &(i->LeftTime);
-            Elapsed = *tv;
+            TimeTask_GetTime(&Now);
+            Left = i->DueTime;
+            Tv_Subtract(&Left, &Now);
+            tv = &Left;
         }
 
         ReadySet = ReadSet;
@@ -272,9 +277,6 @@ TimeTask_Work(void *Unused)
 
         case 0:
             /* Run the task */
-            Tv_Subtract(&Elapsed, tv);
-            TimeTask_ReduceTime(&Elapsed);
-
             if( i->Asynchronous )
             {
                 ThreadHandle t;
@@ -288,12 +290,6 @@ TimeTask_Work(void *Unused)
 
         default:
             /* Receive a new task from other thread */
-            if( tv != NULL )
-            {
-                Tv_Subtract(&Elapsed, tv);
-                TimeTask_ReduceTime(&Elapsed);
-            }
-
             {
                 static TaskInfo ni;
 
@@ -359,11 +355,14 @@ int TimedTask_Add(BOOL Persistent,
 #ifdef _WIN32
         i.LeftTime = 0;
 #else /* _WIN32 */
-        i.LeftTime.tv_sec = 0;
-        i.LeftTime.tv_usec = 0;
+        TimeTask_GetTime(&(i.DueTime));
 #endif /* _WIN32 */
     } else {
+#ifdef _WIN32
         i.LeftTime = i.TimeOut;
+#else /* _WIN32 */
+        TimeTask_SetDueTime(&i);
+#endif /* _WIN32 */
     }
 
 #ifdef _WIN32
@@ -387,7 +386,7 @@ static int Compare(const void *One, const void *Two)
 #ifdef _WIN32
     return o->LeftTime - t->LeftTime;
 #else /* _WIN32 */
-    return Tv_Comapre(&(o->LeftTime), &(t->LeftTime));
+    return Tv_Comapre(&(o->DueTime), &(t->DueTime));
 #endif /* _WIN32 */
 }
 
-- 
2.43.0


From bdde1b89fac6ea74604f333dd531b3c14e499aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:53 +0000
Subject: [PATCH 41/59] fix: update intervals of more than 24 days stopped all
 timed tasks

---
 domainstatistic.c | 2 +-
 dynamichosts.c    | 2 +-
 timedtask.c       | 4 ++--
 timedtask.h       | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/domainstatistic.c b/domainstatistic.c
index 2123587..30b5f4f 100755
--- a/domainstatistic.c
+++ b/domainstatistic.c
@@ -251,7 +251,7 @@ int DomainStatistic_Init(ConfigFileInfo *ConfigInfo)
 
     TimedTask_Add(TRUE,
                   FALSE,
-                  OutputInterval * 1000,
+                  (int64_t)OutputInterval * 1000,
                   DomainStatistic_Works,
                   NULL,
                   NULL,
diff --git a/dynamichosts.c b/dynamichosts.c
index c7c83e7..d2be33f 100755
--- a/dynamichosts.c
+++ b/dynamichosts.c
@@ -228,7 +228,7 @@ int DynamicHosts_Init(ConfigFileInfo *ConfigInfo)
     } else {
         TimedTask_Add(TRUE,
                       TRUE,
-                      UpdateInterval * 1000,
+                      (int64_t)UpdateInterval * 1000,
                       (TaskFunc)GetHostsFromInternet_Thread,
                       NULL,
                       NULL,
diff --git a/timedtask.c b/timedtask.c
index 28e4f40..c2b474e 100755
--- a/timedtask.c
+++ b/timedtask.c
@@ -325,7 +325,7 @@ TimeTask_Work(void *Unused)
 
 int TimedTask_Add(BOOL Persistent,
                  BOOL Asynchronous,
-                 int Milliseconds,
+                 int64_t Milliseconds,
                  TaskFunc Func,
                  void *Arg1,
                  void *Arg2,
@@ -345,7 +345,7 @@ int TimedTask_Add(BOOL Persistent,
     i.Persistent = Persistent;
     i.Asynchronous = Asynchronous;
 #ifdef _WIN32
-    i.TimeOut = Milliseconds;
+    i.TimeOut = Milliseconds > INT32_MAX ? INT32_MAX : (DWORD)Milliseconds;
 #else /* _WIN32 */
     i.TimeOut.tv_usec = (Milliseconds % 1000) * 1000;
     i.TimeOut.tv_sec = Milliseconds / 1000;
diff --git a/timedtask.h b/timedtask.h
index 12e9227..731eb11 100755
--- a/timedtask.h
+++ b/timedtask.h
@@ -9,7 +9,7 @@ int TimedTask_Init(void);
 
 int TimedTask_Add(BOOL Persistent,
                   BOOL Asynchronous,
-                  int Milliseconds,
+                  int64_t Milliseconds,
                   TaskFunc Func,
                   void *Arg1,
                   void *Arg2,
-- 
2.43.0


From be30db3be8fe3b6fc3efa230b04f5bf5f5e8e582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:21 +0000
Subject: [PATCH 42/59] fix: a good-IP address refusing connections was taken
 for the fastest one

---
 goodiplist.c | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/goodiplist.c b/goodiplist.c
index 5440013..4ac3c6b 100755
--- a/goodiplist.c
+++ b/goodiplist.c
@@ -23,6 +23,9 @@ static struct sockaddr_in *CheckAList(struct sockaddr_in *Ips, int Count)
     struct timeval  Time    =   {5, 0};
     struct sockaddr_in **Fastest = NULL;
 
+    int Pending = 0;
+    SOCKET Ready;
+
     struct sockaddr_in *ret = NULL;
 
     if( SocketPuller_Init(&p, sizeof(struct sockaddr *)) != 0 )
@@ -43,6 +46,7 @@ static struct sockaddr_in *CheckAList(struct sockaddr_in *Ips, int Count)
 
         if( SetSocketNonBlock(skt, TRUE) != 0 )
         {
+            CLOSE_SOCKET(skt);
             continue;
         }
 
@@ -56,19 +60,35 @@ static struct sockaddr_in *CheckAList(struct sockaddr_in *Ips, int Count)
             continue;
         }
 
-        p.Add(&p, skt, &a, sizeof(struct sockaddr *));
-    }
+        if( p.Add(&p, skt, &a, sizeof(struct sockaddr *)) != 0 )
+        {
+            CLOSE_SOCKET(skt);
+            continue;
+        }
 
-    if( p.Select(&p, &Time, (void **)&Fastest, FALSE, TRUE, NULL) == INVALID_SOCKET )
-    {
-        ret = NULL;
+        ++Pending;
     }
 
-    if( Fastest == NULL )
+    for( ; Pending != 0; --Pending )
     {
-        ret = NULL;
-    } else {
-        ret = *Fastest;
+        int Err = 0;
+        socklen_t ErrLen = sizeof(Err);
+
+        Ready = p.Select(&p, &Time, (void **)&Fastest, FALSE, TRUE, NULL);
+        if( Ready == INVALID_SOCKET || Fastest == NULL )
+        {
+            break;
+        }
+
+        /* A refused connection is ready as well. */
+        if( getsockopt(Ready, SOL_SOCKET, SO_ERROR, (char *)&Err, &ErrLen) == 0 && Err == 0 )
+        {
+            ret = *Fastest;
+            break;
+        }
+
+        p.Del(&p, Ready);
+        CLOSE_SOCKET(Ready);
     }
 
     p.Free(&p);
-- 
2.43.0


From 9bfa3945cdf757415645ec4ff29677127d026a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:21 +0000
Subject: [PATCH 43/59] fix: a host bound to a list without a name used
 uninitialised memory

---
 hostscontainer.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hostscontainer.c b/hostscontainer.c
index 00c8897..cb469b4 100755
--- a/hostscontainer.c
+++ b/hostscontainer.c
@@ -319,7 +319,10 @@ PRIFUNC int HostsContainer_AddGoodIpList(HostsContainer *Container,
 {
     char            Trimed[128];
 
-    sscanf(ListName, "<%127[^>]", Trimed);
+    if( sscanf(ListName, "<%127[^>]", Trimed) != 1 )
+    {
+        return -314;
+    }
 
     return HostsContainer_AddNode(Container,
                                   Domain,
-- 
2.43.0


From 74067322fe2f7f27c6e24182b466401d8aa244c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:49 +0000
Subject: [PATCH 44/59] fix: log messages were lost while another thread
 rotated the log, and older logs could be overwritten

While one thread had the log closed to rename it, Log_Inited told the
other threads that there was no log; and when the log could not be opened
again after that, nothing was logged any more. An older log which could
not be opened for reading was taken for missing and overwritten.
---
 logs.c | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/logs.c b/logs.c
index cf42b5e..d023618 100755
--- a/logs.c
+++ b/logs.c
@@ -1,6 +1,8 @@
 #include <stdio.h>
 #include <string.h>
 #include <stdarg.h>
+#include <errno.h>
+#include <sys/stat.h>
 #include "logs.h"
 #include "utils.h"
 #include "dnsparser.h"
@@ -10,6 +12,7 @@
 static BOOL PrintConsole = FALSE;
 static BOOL DebugOn = FALSE;
 
+static BOOL LogToFile = FALSE;
 static FILE *LogFile = NULL;
 
 static int  ThresholdLength = 0;
@@ -67,6 +70,7 @@ int Log_Init(ConfigFileInfo *ConfigInfo, BOOL PrintScreen, BOOL Debug)
         fseek(LogFile, 0, SEEK_END);
         CurrentLength = ftell(LogFile);
     }
+    LogToFile = TRUE;
     atexit(Log_Cleanup);
 
     ThresholdLength = ConfigGetInt32(ConfigInfo, "LogFileThresholdLength");
@@ -80,7 +84,7 @@ int Log_Init(ConfigFileInfo *ConfigInfo, BOOL PrintScreen, BOOL Debug)
 
 BOOL Log_Inited(void)
 {
-    return LogFile != NULL || PrintConsole;
+    return LogToFile || PrintConsole;
 }
 
 BOOL Log_DebugOn(void)
@@ -100,6 +104,7 @@ static void CheckLength(void)
         while( TRUE )
         {
             static int CurrentNumber = 0;
+            struct stat FileStat;
 
             ++CurrentNumber;
 
@@ -115,16 +120,18 @@ static void CheckLength(void)
                 break;
             }
 
-            if( FileIsReadable(FileRenamed) == FALSE )
+            if( stat(FileRenamed, &FileStat) == 0 )
             {
-                /* If path to `FileRenamed' does not exist */
-                if( rename(FilePath, FileRenamed) == 0 )
-                {
-                    CurrentLength = 0;
-                }
+                continue;
+            }
 
-                break;
+            /* Only if path to `FileRenamed' does not exist for sure */
+            if( errno == ENOENT && rename(FilePath, FileRenamed) == 0 )
+            {
+                CurrentLength = 0;
             }
+
+            break;
         }
 
         /* If it couldn't be renamed, go on with the old one */
@@ -147,9 +154,15 @@ void Log_Print(const char *Type, const char *format, ...)
     va_start(ap, format);
 
     EFFECTIVE_LOCK_GET(PrintLock);
-    if( LogFile != NULL )
+    if( LogToFile )
     {
-        CheckLength();
+        if( LogFile == NULL )
+        {
+            /* It couldn't be opened after being renamed */
+            LogFile = fopen(FilePath, "a");
+        } else {
+            CheckLength();
+        }
     }
 
     if( LogFile != NULL )
-- 
2.43.0


From 97742d434861b7bf0134a0ef635ad92ae4684b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:02 +0000
Subject: [PATCH 45/59] fix: answered alias queries were missing in the
 statistics

A query for a name which is an alias in hosts was logged as answered from
hosts but never counted.
---
 hosts.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hosts.c b/hosts.c
index 4cd9b99..d4197b1 100755
--- a/hosts.c
+++ b/hosts.c
@@ -337,6 +337,7 @@ Hosts_SocketLoop(void *Unused)
             }
 
             ShowNormalMessage(InnerHeader, 'H');
+            DomainStatistic_Add(InnerHeader, STATISTIC_TYPE_HOSTS);
         }
     }
 
-- 
2.43.0


From c22dd801973da6db0c30514a4be0794c7d1be46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:41 +0000
Subject: [PATCH 46/59] fix: queries handled while the statistic report was
 written were not counted

---
 domainstatistic.c | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/domainstatistic.c b/domainstatistic.c
index 30b5f4f..6e42486 100755
--- a/domainstatistic.c
+++ b/domainstatistic.c
@@ -33,8 +33,6 @@ static unsigned long int    InitTime_Num;
 static char *PreOutput = NULL;
 static char *PostOutput = NULL;
 
-volatile static BOOL    SkipStatistic = FALSE;
-
 static int GetPreAndPost(ConfigFileInfo *ConfigInfo)
 {
     const char  *TemplateFile = ConfigGetRawString(ConfigInfo, "DomainStatisticTempletFile");
@@ -117,9 +115,8 @@ static int DomainStatistic_Works(void *Unused, void *Unused2)
 
     Enum_Start = 0;
 
+    /* Counting waits, so that nothing is missed */
     EFFECTIVE_LOCK_GET(StatisticLock);
-    SkipStatistic = TRUE;
-    EFFECTIVE_LOCK_RELEASE(StatisticLock);
 
     Str = StringChunk_Enum_NoWildCard(&MainChunk, &Enum_Start, (void **)&Info);
     while( Str != NULL )
@@ -159,8 +156,6 @@ static int DomainStatistic_Works(void *Unused, void *Unused2)
         Str = StringChunk_Enum_NoWildCard(&MainChunk, &Enum_Start, (void **)&Info);
     }
 
-    EFFECTIVE_LOCK_GET(StatisticLock);
-    SkipStatistic = FALSE;
     EFFECTIVE_LOCK_RELEASE(StatisticLock);
 
     fprintf(MainFile, "];");
@@ -247,7 +242,6 @@ int DomainStatistic_Init(ConfigFileInfo *ConfigInfo)
     StringChunk_Init(&MainChunk, NULL);
 
     InitTime_Num = time(NULL);
-    SkipStatistic = FALSE;
 
     TimedTask_Add(TRUE,
                   FALSE,
@@ -272,9 +266,7 @@ int DomainStatistic_Add(IHeader *h, StatisticType Type)
 
     EFFECTIVE_LOCK_GET(StatisticLock);
 
-    if( SkipStatistic == FALSE )
     {
-
         if( StringChunk_Match(&MainChunk,
                               h->Domain,
                               &(h->HashValue),
-- 
2.43.0


From a79852a4d73009fbef89c2d791a71990f2a48fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:41 +0000
Subject: [PATCH 47/59] fix: a query for a name with a wildcard kept the names
 it covers out of the statistic report

---
 domainstatistic.c | 22 ++++++++++++++++++----
 stringchunk.c     | 25 +++++++++++++++++++++++++
 stringchunk.h     |  2 ++
 3 files changed, 45 insertions(+), 4 deletions(-)

diff --git a/domainstatistic.c b/domainstatistic.c
index 6e42486..0a04c76 100755
--- a/domainstatistic.c
+++ b/domainstatistic.c
@@ -82,10 +82,22 @@ EXIT:
     return -1;
 }
 
+static const char *EnumDomains(int32_t *Start, int32_t *W_Start, DomainInfo **Info)
+{
+    const char *Str = StringChunk_Enum_NoWildCard(&MainChunk, Start, (void **)Info);
+
+    if( Str == NULL )
+    {
+        Str = StringChunk_Enum_OnlyWildCard(&MainChunk, W_Start, (void **)Info);
+    }
+
+    return Str;
+}
+
 static int DomainStatistic_Works(void *Unused, void *Unused2)
 {
     const char *Str;
-    int32_t Enum_Start;
+    int32_t Enum_Start, Enum_W_Start;
 
     DomainInfo *Info;
     DomainInfo Sum;
@@ -114,11 +126,12 @@ static int DomainStatistic_Works(void *Unused, void *Unused2)
             );
 
     Enum_Start = 0;
+    Enum_W_Start = 0;
 
     /* Counting waits, so that nothing is missed */
     EFFECTIVE_LOCK_GET(StatisticLock);
 
-    Str = StringChunk_Enum_NoWildCard(&MainChunk, &Enum_Start, (void **)&Info);
+    Str = EnumDomains(&Enum_Start, &Enum_W_Start, &Info);
     while( Str != NULL )
     {
         if( Info != NULL )
@@ -153,7 +166,7 @@ static int DomainStatistic_Works(void *Unused, void *Unused2)
                      );
         }
 
-        Str = StringChunk_Enum_NoWildCard(&MainChunk, &Enum_Start, (void **)&Info);
+        Str = EnumDomains(&Enum_Start, &Enum_W_Start, &Info);
     }
 
     EFFECTIVE_LOCK_RELEASE(StatisticLock);
@@ -267,7 +280,8 @@ int DomainStatistic_Add(IHeader *h, StatisticType Type)
     EFFECTIVE_LOCK_GET(StatisticLock);
 
     {
-        if( StringChunk_Match(&MainChunk,
+        /* A queried name with wildcards in it is that name only */
+        if( StringChunk_Match_Exactly(&MainChunk,
                               h->Domain,
                               &(h->HashValue),
                               (void **)&ExistInfo,
diff --git a/stringchunk.c b/stringchunk.c
index 8b0e05c..f9e54c6 100755
--- a/stringchunk.c
+++ b/stringchunk.c
@@ -454,6 +454,31 @@ const char *StringChunk_Enum_NoWildCard(StringChunk *dl, int32_t *Start, void **
     return Result->str;
 }
 
+const char *StringChunk_Enum_OnlyWildCard(StringChunk *dl, int32_t *Start, void **Data)
+{
+    EntryForString *Result;
+
+    Result = (EntryForString *)Array_GetBySubscript(&(dl->List_W_Pos), *Start);
+    if( Result == NULL )
+    {
+        if( Data != NULL )
+        {
+            *Data = NULL;
+        }
+
+        return NULL;
+    }
+
+    ++(*Start);
+
+    if( Data != NULL )
+    {
+        *Data = (void *)Result->Data;
+    }
+
+    return Result->str;
+}
+
 void StringChunk_Free(StringChunk *dl, BOOL FreeStringList)
 {
     SimpleHT_Free(&(dl->List_Pos));
diff --git a/stringchunk.h b/stringchunk.h
index 89265aa..4a3b81b 100755
--- a/stringchunk.h
+++ b/stringchunk.h
@@ -102,6 +102,8 @@ BOOL StringChunk_Domain_Match_WildCardRandom(StringChunk    *dl,
 
 const char *StringChunk_Enum_NoWildCard(StringChunk *dl, int32_t *Start, void **Data);
 
+const char *StringChunk_Enum_OnlyWildCard(StringChunk *dl, int32_t *Start, void **Data);
+
 void StringChunk_Free(StringChunk *dl, BOOL FreeStringList);
 
 int InitChunk(StringChunk **dl);
-- 
2.43.0


From de5fa3afa5877c3c24dc34a08c0df8f825041d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:41 +0000
Subject: [PATCH 48/59] fix: a queried name could break the statistic report or
 put script into it

---
 domainstatistic.c | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/domainstatistic.c b/domainstatistic.c
index 0a04c76..556025e 100755
--- a/domainstatistic.c
+++ b/domainstatistic.c
@@ -1,5 +1,6 @@
 #include <string.h>
 #include <time.h>
+#include <ctype.h>
 #include "common.h"
 #include "stringchunk.h"
 #include "domainstatistic.h"
@@ -82,6 +83,20 @@ EXIT:
     return -1;
 }
 
+/* Names come from clients, they must not get out of the string */
+static void PrintDomain(const char *Domain)
+{
+    for( ; *Domain != '\0'; ++Domain )
+    {
+        if( isalnum((unsigned char)*Domain) || strchr("-_.*?", *Domain) != NULL )
+        {
+            fputc(*Domain, MainFile);
+        } else {
+            fprintf(MainFile, "\\x%02x", (unsigned char)*Domain);
+        }
+    }
+}
+
 static const char *EnumDomains(int32_t *Start, int32_t *W_Start, DomainInfo **Info)
 {
     const char *Str = StringChunk_Enum_NoWildCard(&MainChunk, Start, (void **)Info);
@@ -144,9 +159,10 @@ static int DomainStatistic_Works(void *Unused, void *Unused2)
             Sum.Tcp += Info->Tcp;
             Sum.BlockedMsg += Info->BlockedMsg;
 
+            fprintf(MainFile, "{Domain:\"");
+            PrintDomain(Str);
             fprintf(MainFile,
-                    "{"
-                        "Domain:\"%s\","
+                        "\","
                         "Total:%d,"
                         "RaF:%d,"
                         "Hosts:%d,"
@@ -155,7 +171,6 @@ static int DomainStatistic_Works(void *Unused, void *Unused2)
                         "TCP:%d,"
                         "BlockedMsg:%d"
                     "},",
-                    Str,
                     Info->Count,
                     Info->Refused,
                     Info->Hosts,
-- 
2.43.0


From 94450e45d21567a77205e21d220ab68eeb868586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:13 +0000
Subject: [PATCH 49/59] fix: a query during a reload of hosts could be treated
 by a mixture of old and new hosts, or be lost

---
 dynamichosts.c | 62 +++++++++++++++++++-------------------------------
 dynamichosts.h |  5 ++++
 hosts.c        | 45 +++++++++++++++++++++++++++---------
 3 files changed, 63 insertions(+), 49 deletions(-)

diff --git a/dynamichosts.c b/dynamichosts.c
index d2be33f..a42e980 100755
--- a/dynamichosts.c
+++ b/dynamichosts.c
@@ -169,6 +169,8 @@ int DynamicHosts_Init(ConfigFileInfo *ConfigInfo)
     int          UpdateInterval;
     const char  *RawScript;
 
+    RWLock_Init(HostsLock);
+
     Hosts = ConfigGetStringList(ConfigInfo, "Hosts");
     if( Hosts == NULL )
     {
@@ -195,8 +197,6 @@ int DynamicHosts_Init(ConfigFileInfo *ConfigInfo)
         *Script = 0;
     }
 
-    RWLock_Init(HostsLock);
-
     File = ConfigGetRawString(ConfigInfo, "HostsDownloadPath");
 
     if( HostsRetryInterval < 0 )
@@ -238,65 +238,51 @@ int DynamicHosts_Init(ConfigFileInfo *ConfigInfo)
     return 0;
 }
 
-int DynamicHosts_GetCName(const char *Domain, char *Buffer)
+void DynamicHosts_Lock(void)
 {
-    int ret;
+    RWLock_RdLock(HostsLock);
+}
 
+void DynamicHosts_Unlock(void)
+{
+    RWLock_UnRLock(HostsLock);
+}
+
+int DynamicHosts_GetCName(const char *Domain, char *Buffer)
+{
     if( MainDynamicContainer == NULL )
     {
         return -198;
     }
 
-    RWLock_RdLock(HostsLock);
-
-    ret = HostsUtils_GetCName(Domain,
-                              Buffer,
-                              (HostsContainer *)MainDynamicContainer
-                              );
-
-    RWLock_UnRLock(HostsLock);
-
-    return ret;
+    return HostsUtils_GetCName(Domain,
+                               Buffer,
+                               (HostsContainer *)MainDynamicContainer
+                               );
 }
 
 BOOL DynamicHosts_TypeExisting(const char *Domain, HostsRecordType Type)
 {
-    BOOL ret;
-
     if( MainDynamicContainer == NULL )
     {
         return FALSE;
     }
 
-    RWLock_RdLock(HostsLock);
-
-    ret = HostsUtils_TypeExisting((HostsContainer *)MainDynamicContainer,
-                                  Domain,
-                                  Type
-                                  );
-
-    RWLock_UnRLock(HostsLock);
-
-    return ret;
+    return HostsUtils_TypeExisting((HostsContainer *)MainDynamicContainer,
+                                   Domain,
+                                   Type
+                                   );
 }
 
 HostsUtilsTryResult DynamicHosts_Try(MsgContext *MsgCtx, int BufferLength)
 {
-    HostsUtilsTryResult ret;
-
     if( MainDynamicContainer == NULL )
     {
         return HOSTSUTILS_TRY_NONE;
     }
 
-    RWLock_RdLock(HostsLock);
-
-    ret = HostsUtils_Try(MsgCtx,
-                         BufferLength,
-                         (HostsContainer *)MainDynamicContainer
-                         );
-
-    RWLock_UnRLock(HostsLock);
-
-    return ret;
+    return HostsUtils_Try(MsgCtx,
+                          BufferLength,
+                          (HostsContainer *)MainDynamicContainer
+                          );
 }
diff --git a/dynamichosts.h b/dynamichosts.h
index cd3cdfa..c87143f 100755
--- a/dynamichosts.h
+++ b/dynamichosts.h
@@ -6,6 +6,11 @@
 
 int DynamicHosts_Init(ConfigFileInfo *ConfigInfo);
 
+/* Hold the lock to look things up in the same hosts */
+void DynamicHosts_Lock(void);
+
+void DynamicHosts_Unlock(void);
+
 int DynamicHosts_GetCName(const char *Domain, char *Buffer);
 
 BOOL DynamicHosts_TypeExisting(const char *Domain, HostsRecordType Type);
diff --git a/hosts.c b/hosts.c
index d4197b1..7673ffd 100755
--- a/hosts.c
+++ b/hosts.c
@@ -15,6 +15,13 @@ static SOCKET   InnerSocket;
 static Address_Type InnerAddress;
 static SocketPuller Puller;
 
+/* What is passed to Hosts_SocketLoop */
+typedef struct _RecursedQuery {
+    IHeader     Header;
+    uint16_t    Identifier;
+    char        RecursedDomain[DOMAIN_NAME_LENGTH_MAX + 1];
+} RecursedQuery;
+
 BOOL Hosts_TypeExisting(const char *Domain, HostsRecordType Type)
 {
     return StaticHosts_TypeExisting(Domain, Type) ||
@@ -40,7 +47,7 @@ static int Hosts_GetCName(const char *Domain, char *Buffer)
            DynamicHosts_GetCName(Domain, Buffer) == 0);
 }
 
-HostsUtilsTryResult Hosts_Try(MsgContext *MsgCtx, int BufferLength)
+static HostsUtilsTryResult Hosts_Try_Locked(MsgContext *MsgCtx, int BufferLength)
 {
     HostsUtilsTryResult ret;
     IHeader *Header = (IHeader *)MsgCtx;
@@ -67,9 +74,19 @@ HostsUtilsTryResult Hosts_Try(MsgContext *MsgCtx, int BufferLength)
 
     if( ret == HOSTSUTILS_TRY_RECURSED )
     {
+        RecursedQuery q;
+
+        memcpy(&(q.Header), Header, sizeof(IHeader));
+        memcpy(&(q.Identifier), Header + 1, sizeof(uint16_t));
+
+        if( Hosts_GetCName(Header->Domain, q.RecursedDomain) != 0 )
+        {
+            return HOSTSUTILS_TRY_NONE;
+        }
+
         if( sendto(InnerSocket,
-                   (const char *)Header, /* Only send header and identifier */
-                   sizeof(IHeader) + sizeof(uint16_t), /* Only send header and identifier */
+                   (const char *)&q, /* Only send header, identifier and the name redirected to */
+                   sizeof(RecursedQuery),
                    MSG_NOSIGNAL,
                    (const struct sockaddr *)&(InnerAddress.Addr),
                    GetAddressLength(InnerAddress.family)
@@ -83,6 +100,18 @@ HostsUtilsTryResult Hosts_Try(MsgContext *MsgCtx, int BufferLength)
     return ret;
 }
 
+HostsUtilsTryResult Hosts_Try(MsgContext *MsgCtx, int BufferLength)
+{
+    HostsUtilsTryResult ret;
+
+    /* Hosts mustn't be reloaded in between */
+    DynamicHosts_Lock();
+    ret = Hosts_Try_Locked(MsgCtx, BufferLength);
+    DynamicHosts_Unlock();
+
+    return ret;
+}
+
 int Hosts_Get(MsgContext *MsgCtx, int BufferLength)
 {
     IHeader *Header = (IHeader *)MsgCtx;
@@ -217,7 +246,7 @@ Hosts_SocketLoop(void *Unused)
         {
             /* Recursive query */
             MsgContext *MsgCtxStored;
-            char RecursedDomain[DOMAIN_NAME_LENGTH_MAX + 1];
+            const char *RecursedDomain = ((RecursedQuery *)InnerBuffer)->RecursedDomain;
             uint16_t NewIdentifier;
 
             TimeLimit = ShortTime;
@@ -230,7 +259,7 @@ Hosts_SocketLoop(void *Unused)
                              NULL
                              );
 
-            if( State < 1 )
+            if( State < (int)sizeof(RecursedQuery) )
             {
                 continue;
             }
@@ -241,12 +270,6 @@ Hosts_SocketLoop(void *Unused)
                 continue;
             }
 
-            if( Hosts_GetCName(InnerHeader->Domain, RecursedDomain) != 0 )
-            {
-                ERRORMSG("Fatal error 221.\n");
-                continue;
-            }
-
             NewIdentifier = rand();
 
             if( HostsUtils_GenerateQuery(OuterBuffer,
-- 
2.43.0


From b780aa20024475715a16e96b120eec0d7b47b462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:14 +0000
Subject: [PATCH 50/59] fix: a disabled domain could be forwarded while the
 lists were reloaded

---
 filter.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/filter.c b/filter.c
index 8951bcc..0ea9e98 100755
--- a/filter.c
+++ b/filter.c
@@ -291,15 +291,13 @@ static BOOL IsDisabledType(int Type)
 
 static BOOL IsDisabledDomain(const char *Domain, uint32_t HashValue)
 {
-    int ret;
+    int ret = FALSE;
 
-    if (DisabledDomain == NULL)
+    RWLock_RdLock(DisabledDomainLock);
+    if( DisabledDomain != NULL )
     {
-        return FALSE;
+        ret = StringChunk_Domain_Match(DisabledDomain, Domain, &HashValue, NULL, NULL, NULL);
     }
-
-    RWLock_RdLock(DisabledDomainLock);
-    ret = StringChunk_Domain_Match(DisabledDomain, Domain, &HashValue, NULL, NULL, NULL);
     RWLock_UnRLock(DisabledDomainLock);
 
     return ret;
-- 
2.43.0


From d626dcea4756baaa6eb3a52dfd9e2ed0a36901bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:13 +0000
Subject: [PATCH 51/59] fix: a query sent before the socket of a new UDP group
 was open, or while it was recreated, got lost

---
 udpm.c | 125 ++++++++++++++++++++++++++++++++-------------------------
 1 file changed, 70 insertions(+), 55 deletions(-)

diff --git a/udpm.c b/udpm.c
index c7755b1..40b53b0 100755
--- a/udpm.c
+++ b/udpm.c
@@ -51,6 +51,62 @@ UdpM_Sweep_Thread(UdpM *m)
     return 0;
 }
 
+/* With `Lock' held, or while no other thread uses `m' */
+static int UdpM_SetUpSocket(UdpM *m)
+{
+    sa_family_t family;
+
+    if( m->Parallels.addrs == NULL )
+    {
+        if( AddressList_GetOne(&(m->AddrList), &family) == NULL )
+        {
+            ERRORMSG("Fatal error 53.\n");
+            return -1;
+        }
+    } else { /* Parallel query */
+        family = m->Parallels.familiy;
+    }
+
+    m->Departure = socket(family, SOCK_DGRAM, IPPROTO_UDP);
+
+    if( m->Departure == INVALID_SOCKET )
+    {
+        ERRORMSG("Fatal error 68.\n");
+        return -2;
+    }
+
+#if defined(_WIN32) && defined(IPV6_V6ONLY)
+    if( family == AF_INET6 )
+    {
+        SetSocketIPv6V6only(m->Departure, 0);
+    }
+#endif
+
+    m->CountOfTimeout = 0;
+
+    return 0;
+}
+
+/* Nothing is sent in between */
+static int UdpM_RecreateSocket(UdpM *m)
+{
+    int ret;
+
+    EFFECTIVE_LOCK_GET(m->Lock);
+
+    if( m->Departure != INVALID_SOCKET )
+    {
+        CLOSE_SOCKET(m->Departure);
+        m->Departure = INVALID_SOCKET;
+    }
+
+    ret = UdpM_SetUpSocket(m);
+
+    EFFECTIVE_LOCK_RELEASE(m->Lock);
+
+    return ret;
+}
+
 static int UdpM_Cleanup(UdpM *m)
 {
     m->IsServer = 0;
@@ -75,8 +131,6 @@ UdpM_Works(UdpM *m)
     static const struct timeval ShortTime = {10, 0};
     struct timeval Timeout;
 
-    struct sockaddr *addr;
-
     char ReceiveBuffer[SOCKET_CONTEXT_LENGTH];
     MsgContext *MsgCtx;
     IHeader *Header;
@@ -84,10 +138,7 @@ UdpM_Works(UdpM *m)
     #define LEFT_LENGTH  (SOCKET_CONTEXT_LENGTH - sizeof(IHeader))
     char *Entity;
 
-    fd_set  ReadSet, ReadySet;
-
-    /* Make analyzer happy. */
-    FD_ZERO(&ReadSet);
+    fd_set  ReadySet;
 
     MsgCtx = (MsgContext *)ReceiveBuffer;
     Header = (IHeader *)ReceiveBuffer;
@@ -99,57 +150,21 @@ UdpM_Works(UdpM *m)
         int ContextState;
 
         /* Set up socket */
-        if( m->Departure == INVALID_SOCKET )
+        if( m->Departure == INVALID_SOCKET && UdpM_RecreateSocket(m) != 0 )
         {
-            sa_family_t family;
-
-            EFFECTIVE_LOCK_GET(m->Lock);
-            if( m->Parallels.addrs == NULL )
-            {
-                addr = AddressList_GetOne(&(m->AddrList), &family);
-                if( addr == NULL )
-                {
-                    ERRORMSG("Fatal error 53.\n");
-                    EFFECTIVE_LOCK_RELEASE(m->Lock);
-                    break;
-                }
-
-            } else { /* Parallel query */
-                family = m->Parallels.familiy;
-            }
-            m->Departure = socket(family, SOCK_DGRAM, IPPROTO_UDP);
-
-            if( m->Departure == INVALID_SOCKET )
-            {
-                ERRORMSG("Fatal error 68.\n");
-                EFFECTIVE_LOCK_RELEASE(m->Lock);
-                break;
-            }
-
-#if defined(_WIN32) && defined(IPV6_V6ONLY)
-            if( family == AF_INET6 )
-            {
-                SetSocketIPv6V6only(m->Departure, 0);
-            }
-#endif
-
-            m->CountOfTimeout = 0;
-
-            EFFECTIVE_LOCK_RELEASE(m->Lock);
-
-            FD_ZERO(&ReadSet);
-            FD_SET(m->Departure, &ReadSet);
+            /* The module is still in use, try again later */
+            SLEEP(1000);
+            continue;
         }
 
-        ReadySet = ReadSet;
+        FD_ZERO(&ReadySet);
+        FD_SET(m->Departure, &ReadySet);
         Timeout = ShortTime;
         switch( select(m->Departure + 1, &ReadySet, NULL, NULL, &Timeout) )
         {
             case SOCKET_ERROR:
                 WARNING("SOCKET_ERROR reached, 98.\n");
-                FD_CLR(m->Departure, &ReadSet);
-                CLOSE_SOCKET(m->Departure);
-                m->Departure = INVALID_SOCKET;
+                UdpM_RecreateSocket(m);
                 continue;
                 break;
 
@@ -157,11 +172,8 @@ UdpM_Works(UdpM *m)
                 #define RECREATION_THRESHOLD    8
                 if( m->CountOfTimeout > RECREATION_THRESHOLD )
                 {
-                    FD_CLR(m->Departure, &ReadSet);
-                    CLOSE_SOCKET(m->Departure);
-                    m->Departure = INVALID_SOCKET;
-
                     WARNING("UDP socket is about to be recreated.\n");
+                    UdpM_RecreateSocket(m);
                 }
                 continue;
                 break;
@@ -275,7 +287,6 @@ static int UdpM_Send(UdpM *m,
         EFFECTIVE_LOCK_RELEASE(m->Lock);
         return -242;
     }
-    EFFECTIVE_LOCK_RELEASE(m->Lock);
 
     if( m->Departure != INVALID_SOCKET )
     {
@@ -310,6 +321,7 @@ static int UdpM_Send(UdpM *m,
             if( a == NULL )
             {
                 ERRORMSG("Fatal error 205.\n");
+                EFFECTIVE_LOCK_RELEASE(m->Lock);
                 return -277;
             }
 
@@ -328,7 +340,7 @@ static int UdpM_Send(UdpM *m,
         }
     }
 
-    /*EFFECTIVE_LOCK_RELEASE(m->Lock);*/
+    EFFECTIVE_LOCK_RELEASE(m->Lock);
     return !ret;
 }
 
@@ -413,6 +425,9 @@ int UdpM_Init(UdpM *m, const char *Services, BOOL Parallel)
 
     m->Send = UdpM_Send;
 
+    /* Queries may come before the thread runs */
+    UdpM_SetUpSocket(m);
+
     CREATE_THREAD(UdpM_Works, m, m->WorkThread);
     DETACH_THREAD(m->WorkThread);
     CREATE_THREAD(UdpM_Sweep_Thread, m, m->SweepThread);
-- 
2.43.0


From 4e552d03257e1a433112f82e7f1a90d197c87507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:36 +0000
Subject: [PATCH 52/59] fix: replacing a group of TCP servers closed a socket
 twice and, with proxies, released memory twice

---
 tcpm.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/tcpm.c b/tcpm.c
index 333503c..2e78c6d 100755
--- a/tcpm.c
+++ b/tcpm.c
@@ -595,9 +595,9 @@ static int TcpM_Cleanup(TcpM *m)
 {
     m->IsServer = 0;
 
-    CLOSE_SOCKET(m->Incoming);
-    m->Incoming = INVALID_SOCKET;
+    /* `Incoming' is closed with it */
     m->Puller.Free(&(m->Puller));
+    m->Incoming = INVALID_SOCKET;
 
     ModuleContext_Free(&(m->Context));
 
@@ -605,7 +605,7 @@ static int TcpM_Cleanup(TcpM *m)
     {
         m->ProxyPuller.Free(&(m->ProxyPuller));
         SocketPullers_Free(m->Proxies);
-        SafeFree(*(m->SocksProxies));
+        SafeFree(m->SocksProxies);
         AddressList_Free(&(m->SocksProxyList));
         SafeFree(m->SocksProxyFamilies);
     }
@@ -997,7 +997,8 @@ int TcpM_Init(TcpM *m, const char *Services, BOOL Parallel, const char *SocksPro
 EXIT_9:
     m->ProxyPuller.FreeWithoutClose(&(m->ProxyPuller));
 EXIT_8:
-    SafeFree(*(m->SocksProxies));
+    SafeFree(m->SocksProxies);
+    SafeFree(m->SocksProxyFamilies);
 EXIT_7:
     AddressList_Free(&(m->SocksProxyList));
 
@@ -1006,7 +1007,8 @@ EXIT_6:
 EXIT_5:
     m->QueryPuller.FreeWithoutClose(&(m->QueryPuller));
 EXIT_4:
-    SafeFree(*(m->Services));
+    SafeFree(m->Services);
+    SafeFree(m->ServiceFamilies);
 
 EXIT_3:
     AddressList_Free(&(m->ServiceList));
-- 
2.43.0


From faa9f71f7252c1fa6c9b66df61ce016bdb4b6d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:33 +0000
Subject: [PATCH 53/59] fix: messages about groups loaded from files used
 released memory

---
 tcpm.c | 22 ++++++++++++++++++++--
 tcpm.h |  4 ++--
 udpm.c | 12 +++++++++++-
 udpm.h |  2 +-
 4 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/tcpm.c b/tcpm.c
index 2e78c6d..166487a 100755
--- a/tcpm.c
+++ b/tcpm.c
@@ -616,6 +616,9 @@ static int TcpM_Cleanup(TcpM *m)
     AddressList_Free(&(m->ServiceList));
     SafeFree(m->ServiceFamilies);
 
+    SafeFree(m->ServiceName);
+    SafeFree(m->ProxyName);
+
     m->WorkThread = NULL_THREAD;
 
     return 0;
@@ -984,8 +987,15 @@ int TcpM_Init(TcpM *m, const char *Services, BOOL Parallel, const char *SocksPro
 
     m->Send = TcpM_Send;
 
-    m->ServiceName = Services;
-    m->ProxyName = SocksProxies;
+    /* `Services' and `SocksProxies' may be gone after initialization */
+    m->ServiceName = StringDup(Services);
+    m->ProxyName = SocksProxies == NULL ? NULL : StringDup(SocksProxies);
+    if( m->ServiceName == NULL || (SocksProxies != NULL && m->ProxyName == NULL) )
+    {
+        ret = -87;
+        goto EXIT_10;
+    }
+
     m->Parallel = Parallel;
     m->IsServer = 1;
 
@@ -994,6 +1004,14 @@ int TcpM_Init(TcpM *m, const char *Services, BOOL Parallel, const char *SocksPro
 
     return 0;
 
+EXIT_10:
+    SafeFree(m->ServiceName);
+    SafeFree(m->ProxyName);
+    if( m->SocksProxies == NULL )
+    {
+        goto EXIT_6;
+    }
+    SocketPullers_Free(m->Proxies);
 EXIT_9:
     m->ProxyPuller.FreeWithoutClose(&(m->ProxyPuller));
 EXIT_8:
diff --git a/tcpm.h b/tcpm.h
index 88aa169..82b35ba 100755
--- a/tcpm.h
+++ b/tcpm.h
@@ -19,14 +19,14 @@ struct _TcpM {
 
     int IsServer;
 
-    const char      *ServiceName;
+    char            *ServiceName;
     AddressList     ServiceList;
     struct sockaddr **Services;
     sa_family_t     *ServiceFamilies;
     SocketPuller    QueryPuller;
     SocketPuller    **Agents;
 
-    const char      *ProxyName;
+    char            *ProxyName;
     AddressList     SocksProxyList;
     struct sockaddr **SocksProxies;
     sa_family_t     *SocksProxyFamilies;
diff --git a/udpm.c b/udpm.c
index 40b53b0..0d57cb9 100755
--- a/udpm.c
+++ b/udpm.c
@@ -116,6 +116,7 @@ static int UdpM_Cleanup(UdpM *m)
 
     SafeFree(m->Parallels.addrs);
     AddressList_Free(&(m->AddrList));
+    SafeFree(m->ServiceName);
 
     m->WorkThread = NULL_THREAD;
 
@@ -418,7 +419,14 @@ int UdpM_Init(UdpM *m, const char *Services, BOOL Parallel)
 
     m->CountOfTimeout = 0;
 
-    m->ServiceName = Services;
+    /* `Services' may be gone after initialization */
+    m->ServiceName = StringDup(Services);
+    if( m->ServiceName == NULL )
+    {
+        ret = -146;
+        goto EXIT_4;
+    }
+
     m->IsServer = 1;
 
     EFFECTIVE_LOCK_INIT(m->Lock);
@@ -435,6 +443,8 @@ int UdpM_Init(UdpM *m, const char *Services, BOOL Parallel)
 
     return 0;
 
+EXIT_4:
+    ModuleContext_Free(&(m->Context));
 EXIT_3:
     SafeFree(m->Parallels.addrs);
 EXIT_2:
diff --git a/udpm.h b/udpm.h
index 77655b9..2c673da 100755
--- a/udpm.h
+++ b/udpm.h
@@ -20,7 +20,7 @@ struct _UdpM {
 
     int IsServer;
 
-    const char      *ServiceName;
+    char            *ServiceName;
     AddressList     AddrList;
     struct { /* parallel query informations */
         /* When these two are not NULL, parallel-query is enabled */
-- 
2.43.0


From f1f9904a9cedb400e01ea13e94593fef67bda11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:33 +0000
Subject: [PATCH 54/59] fix: a UDP group without any usable server was released
 while in use

---
 udpm.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/udpm.c b/udpm.c
index 0d57cb9..83b5fce 100755
--- a/udpm.c
+++ b/udpm.c
@@ -386,6 +386,12 @@ int UdpM_Init(UdpM *m, const char *Services, BOOL Parallel)
 
     Addresses.Free(&Addresses);
 
+    if( AddressList_GetNumberOfAddresses(&(m->AddrList)) <= 0 )
+    {
+        ret = -178;
+        goto EXIT_2;
+    }
+
     if( Parallel )
     {
         if( AddressList_GetOneBySubscript(&(m->AddrList),
-- 
2.43.0


From ca93f3cd6c0ab24743ff0e4d0008204e84c9b3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:33 +0000
Subject: [PATCH 55/59] fix: when loading groups failed, those initialized
 already were released while running

---
 mmgr.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/mmgr.c b/mmgr.c
index 373aa47..0224405 100755
--- a/mmgr.c
+++ b/mmgr.c
@@ -115,8 +115,6 @@ static int Udp_Init_Core(ModuleMap *ModuleMap,
         return -101;
     }
 
-    NewM->ModuleName = "UDP";
-
     strncpy(ParallelOnOff, Parallel, sizeof(ParallelOnOff));
     ParallelOnOff[sizeof(ParallelOnOff) - 1] = '\0';
     StrToLower(ParallelOnOff);
@@ -134,6 +132,7 @@ static int Udp_Init_Core(ModuleMap *ModuleMap,
         return -128;
     }
 
+    NewM->ModuleName = "UDP";
     NewM->Send = (SendFunc)(NewM->ModuleUnion.Udp.Send);
 
     if( MappingAModule(ModuleMap, NewM, DomainList) != 0 )
@@ -203,8 +202,6 @@ static int Tcp_Init_Core(ModuleMap *ModuleMap,
         return -192;
     }
 
-    NewM->ModuleName = "TCP";
-
     strncpy(OptionString, Parallel, sizeof(OptionString));
     OptionString[sizeof(OptionString) - 1] = '\0';
     StrToLower(OptionString);
@@ -231,6 +228,7 @@ static int Tcp_Init_Core(ModuleMap *ModuleMap,
         return -180;
     }
 
+    NewM->ModuleName = "TCP";
     NewM->Send = (SendFunc)(NewM->ModuleUnion.Tcp.Send);
 
     if( MappingAModule(ModuleMap, NewM, DomainList) != 0 )
@@ -672,6 +670,8 @@ static int Modules_Load(ConfigFileInfo *ConfigInfo)
         return -1;
     }
 
+    NewModuleMap->Modules = NULL;
+    NewModuleMap->ModuleArray = NULL;
     NewModuleMap->Distributor = NULL;
     if( InitChunk(&(NewModuleMap->Distributor)) != 0 )
     {
@@ -715,7 +715,11 @@ static int Modules_Load(ConfigFileInfo *ConfigInfo)
 
     if (ret)
     {
-        goto ModulesFree;
+        /* Modules initialized already are running */
+        CREATE_THREAD(Modules_SafeCleanup, NewModuleMap, th);
+        DETACH_THREAD(th);
+        INFO("Loading GroupFile(s) failed.\n");
+        return ret;
     }
 
     RWLock_WrLock(ModulesLock);
-- 
2.43.0


From 7286543741f48d20d281e99e3089ef2ab140ae2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:33 +0000
Subject: [PATCH 56/59] fix: answers to queries sent just before groups were
 reloaded got lost

---
 mmgr.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mmgr.c b/mmgr.c
index 0224405..6c11795 100755
--- a/mmgr.c
+++ b/mmgr.c
@@ -10,6 +10,9 @@
 #include "readline.h"
 #include "rwlock.h"
 
+/* How long replaced modules wait for answers, in milliseconds */
+#define PENDING_QUERIES_TIME    10000
+
 typedef int (*SendFunc)(void *Module,
                         IHeader *h, /* Entity followed */
                         int BufferLength
@@ -619,6 +622,9 @@ Modules_SafeCleanup(ModuleMap *ModuleMap)
         return -1;
     }
 
+    /* Answers to the latest queries are still to come */
+    SLEEP(PENDING_QUERIES_TIME);
+
     while( InUse )
     {
         InUse = FALSE;
-- 
2.43.0


From 017935d424f3fd73b617a860ad752b0888e59763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:59 +0000
Subject: [PATCH 57/59] fix: an error page got in place of a hosts file was
 taken for the hosts

---
 downloader.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/downloader.c b/downloader.c
index 15fdc3c..867aab4 100755
--- a/downloader.c
+++ b/downloader.c
@@ -277,6 +277,7 @@ Exit_1:
 
     curl_easy_setopt(curl, CURLOPT_URL, URL);
     curl_easy_setopt(curl, CURLOPT_FOLLOWLOCATION, 1l);
+    curl_easy_setopt(curl, CURLOPT_FAILONERROR, 1l);
     curl_easy_setopt(curl, CURLOPT_WRITEFUNCTION, WriteFileCallback);
     curl_easy_setopt(curl, CURLOPT_WRITEDATA, fp);
 
-- 
2.43.0


From 73f02b24cbbf9cab78fa86d6ddbc730a9dc0caee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:50 +0000
Subject: [PATCH 58/59] fix: free the socket pullers of a TCP group with the
 group

---
 socketpuller.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/socketpuller.c b/socketpuller.c
index ce0c9b4..477e174 100755
--- a/socketpuller.c
+++ b/socketpuller.c
@@ -192,5 +192,6 @@ void SocketPullers_Free(SocketPuller **Pullers)
     {
         (*Pullers)->Free(*Pullers);
     }
+    SafeFree(*p); /* All of them are in one block */
     SafeFree(p);
 }
-- 
2.43.0


From 6b40781cf601f0da5e50a1e44ee3eb562c0eb528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:58 +0000
Subject: [PATCH 59/59] fix: forget unanswered alias queries under steady
 traffic too

The contexts of alias (CNAME in hosts) queries that are never answered were
swept only after ten seconds without any alias query, so that with steady
traffic they accumulated without a bound.
---
 hosts.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/hosts.c b/hosts.c
index 7673ffd..285a745 100755
--- a/hosts.c
+++ b/hosts.c
@@ -202,6 +202,7 @@ Hosts_SocketLoop(void *Unused)
 
     int State;
     int ret = 0;
+    int NumberOfCumulated = 0;
 
     OuterSocket = TryBindLocal(Ipv6_Enabled, 10300, &OuterAddress);
 
@@ -242,6 +243,7 @@ Hosts_SocketLoop(void *Unused)
             }
             TimeLimit = LongTime;
             Context.Sweep(&Context, Hosts_SweepCallback, NULL);
+            NumberOfCumulated = 0;
         } else if( Pulled == InnerSocket )
         {
             /* Recursive query */
@@ -251,6 +253,13 @@ Hosts_SocketLoop(void *Unused)
 
             TimeLimit = ShortTime;
 
+            /* It may never be idle */
+            if( NumberOfCumulated > 1024 )
+            {
+                Context.Sweep(&Context, Hosts_SweepCallback, NULL);
+                NumberOfCumulated = 0;
+            }
+
             State = recvfrom(InnerSocket,
                              InnerBuffer, /* Receiving a header */
                              sizeof(InnerBuffer),
@@ -300,6 +309,8 @@ Hosts_SocketLoop(void *Unused)
                 continue;
             }
 
+            ++NumberOfCumulated;
+
             OuterHeader->Parent = (IHeader *)MsgCtxStored;
             OuterHeader->ParentSerial = LastSerial;
 
-- 
2.43.0

