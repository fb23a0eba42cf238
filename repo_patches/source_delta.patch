From 2216bd902556fb36ec4f90be42eade9abf6ceb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:29 +0000
Subject: [PATCH 001/117] fix: CLruCache honours the capacity passed to its
 constructor

---
 include/CLruCache.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/CLruCache.h b/include/CLruCache.h
index b8e3d57..24b8453 100644
--- a/include/CLruCache.h
+++ b/include/CLruCache.h
@@ -37,7 +37,7 @@ namespace lce
 
         CLruCache(size_t dwMaxSize = 10000)
         {
-            m_dwMaxSize = 10000;
+            m_dwMaxSize = dwMaxSize;
             m_dwSize = 0;
             pstHead = NULL;
             pstTail = NULL;
-- 
2.43.0


From 1c403bc3704b8fb85906cee7f3f46954bd98b6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:42 +0000
Subject: [PATCH 002/117] fix: CLruCache evicting its last entry leaves no
 dangling list head

---
 include/CLruCache.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/CLruCache.h b/include/CLruCache.h
index 24b8453..89d8857 100644
--- a/include/CLruCache.h
+++ b/include/CLruCache.h
@@ -81,6 +81,8 @@ namespace lce
 
             if (pstTail != NULL)
                 pstTail->next = NULL;
+            else
+                pstHead = NULL;
 
             m_dwSize--;
 
-- 
2.43.0


From f826d4b9528089f4ed8dedde59e9ce2538c897a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:01 +0000
Subject: [PATCH 003/117] fix: HTTP packet boundaries are looked for inside the
 received data only

---
 include/CHttpPackageFilter.h | 96 ++++++++++++++----------------------
 1 file changed, 37 insertions(+), 59 deletions(-)

diff --git a/include/CHttpPackageFilter.h b/include/CHttpPackageFilter.h
index 47f2f20..91e7a5d 100644
--- a/include/CHttpPackageFilter.h
+++ b/include/CHttpPackageFilter.h
@@ -1,6 +1,9 @@
 #ifndef __NCE_CHTTPPACKAGE_H
 #define __NCE_CHTTPPACKAGE_H
 
+#include <string.h>
+#include <stdlib.h>
+
 namespace lce
 {
 	class CHttpPackageFilter : public CPackageFilter
@@ -15,71 +18,46 @@ namespace lce
 		inline int isWholePkg(const char *pszData, const int iDataSize, int &iRealPkgLen, int &iPkgLen)
 		{
 			int iRe = -1;
-			const char *pFirstLine = ::strstr(pszData, "\r\n");
-			if (NULL != pFirstLine)
+			if (iDataSize <= 0)
 			{
-				const char *pEnd = ::strstr(pszData, "\r\n\r\n") + sizeof("\r\n\r\n") - 1;
-				if (NULL != pEnd)
-				{
+				return -1;
+			}
+
+			// the data is not zero terminated, search only inside it
+			const char *pEnd = (const char *)::memmem(pszData, iDataSize, "\r\n\r\n", 4);
+			if (NULL != pEnd)
+			{
+				pEnd += 4;
+				int iHeadLen = (int)(pEnd - pszData);
+				long long llContentLen = 0;
 
-					bool bRecvData = false;
-					const char *pHTTP = ::strstr(pszData, "HTTP");
-					if (pHTTP == pszData)
+				// every header line after the first line
+				const char *pLine = (const char *)::memmem(pszData, iHeadLen, "\r\n", 2) + 2;
+				while (pLine + 2 < pEnd)
+				{
+					const int iNameLen = sizeof("Content-Length:") - 1;
+					if (pEnd - pLine > iNameLen && ::strncmp(pLine, "Content-Length:", iNameLen) == 0)
 					{
-						bRecvData = true;
+						// the line ends with "\r\n", so the number ends inside the head
+						const char *pValue = pLine + iNameLen;
+						while (*pValue == ' ' || *pValue == '\t')
+							++pValue;
+						if (*pValue == '-' || (*pValue >= '0' && *pValue <= '9'))
+							llContentLen = ::strtoll(pValue, NULL, 10);
+						break;
 					}
+					pLine = (const char *)::memmem(pLine, pEnd - pLine, "\r\n", 2) + 2;
+				}
 
-					int iHeadLen = (int)(pEnd - pszData);
-					int iHTMLLen = iHeadLen;
-
-					if (bRecvData)
-					{
-						const char *pContentLenPos = ::strstr(pszData, "Content-Length: ");
-						if (NULL != pContentLenPos)
-						{
-							if (pEnd > pContentLenPos)
-							{
-								const char *pContentLenEndPos = strstr(pContentLenPos, "\r\n");
-								if (NULL != pContentLenEndPos && pContentLenPos < pEnd)
-								{
-									int iContentLen = atoi(pContentLenPos + sizeof("Content-Length: ") - 1);
-									iHTMLLen += iContentLen;
-								}
-							}
+				if (llContentLen < 0 || llContentLen > 0x7fffffff - iHeadLen)
+				{
+					return -2;
+				}
 
-							if (iHTMLLen <= iDataSize && iHTMLLen > iHeadLen)
-							{
-								iRealPkgLen = iPkgLen = iHTMLLen;
-								iRe = 0;
-							}
-						}
-						if (iHTMLLen <= iDataSize && iHTMLLen > 0)
-						{
-							iRealPkgLen = iPkgLen = iHTMLLen;
-							iRe = 0;
-						}
-					}
-					else
-					{
-						const char *pContentLenPos = ::strstr(pszData, "Content-Length: ");
-						if (NULL != pContentLenPos)
-						{
-							if (pEnd > pContentLenPos)
-							{
-								const char *pContentLenEndPos = strstr(pContentLenPos, "\r\n");
-								if (NULL != pContentLenEndPos && pContentLenPos < pEnd)
-								{
-									int iContentLen = atoi(pContentLenPos + sizeof("Content-Length: ") - 1);
-									iHTMLLen += iContentLen;
-								}
-							}
-						}
-						if (iHTMLLen <= iDataSize && iHTMLLen > 0)
-						{
-							iRealPkgLen = iPkgLen = iHTMLLen;
-							iRe = 0;
-						}
-					}
+				if (iHeadLen + llContentLen <= iDataSize)
+				{
+					iRealPkgLen = iPkgLen = iHeadLen + (int)llContentLen;
+					iRe = 0;
 				}
 			}
 			return iRe;
-- 
2.43.0


From d7868af44b7ad8c832ab855a972ce5a6bbdbbaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:01 +0000
Subject: [PATCH 004/117] fix: HTTP packet boundary honours Content-Length in
 any letter case

---
 include/CHttpPackageFilter.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/CHttpPackageFilter.h b/include/CHttpPackageFilter.h
index 91e7a5d..c8714bb 100644
--- a/include/CHttpPackageFilter.h
+++ b/include/CHttpPackageFilter.h
@@ -2,6 +2,7 @@
 #define __NCE_CHTTPPACKAGE_H
 
 #include <string.h>
+#include <strings.h>
 #include <stdlib.h>
 
 namespace lce
@@ -36,7 +37,7 @@ namespace lce
 				while (pLine + 2 < pEnd)
 				{
 					const int iNameLen = sizeof("Content-Length:") - 1;
-					if (pEnd - pLine > iNameLen && ::strncmp(pLine, "Content-Length:", iNameLen) == 0)
+					if (pEnd - pLine > iNameLen && ::strncasecmp(pLine, "Content-Length:", iNameLen) == 0)
 					{
 						// the line ends with "\r\n", so the number ends inside the head
 						const char *pValue = pLine + iNameLen;
-- 
2.43.0


From c26ce758fb825b5231b00e386f07053238add8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:26 +0000
Subject: [PATCH 005/117] fix: writing to a connection the peer has closed
 raises no SIGPIPE

---
 src/Utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utils.cpp b/src/Utils.cpp
index 1f29a32..c41b093 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -58,7 +58,7 @@ namespace lce
 
     int Send(int iFd, const char *buf, int count)
     {
-        return ::send(iFd, buf, count, 0);
+        return ::send(iFd, buf, count, MSG_NOSIGNAL);
     }
 
     int CreateTcpSock()
-- 
2.43.0


From 00a5b09e30fcd5ce49531522c1e745224371df28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:26 +0000
Subject: [PATCH 006/117] fix: CCommMgr admits no more clients than its limit

---
 src/CCommMgr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index b7004de..ded1204 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -441,7 +441,7 @@ namespace lce
 
             stSession.ddwBeginTime = lce::GetTickCount();
 
-            if (m_dwClientNum > m_dwMaxClient)
+            if (m_dwClientNum >= m_dwMaxClient)
             {
                 snprintf(m_szErrMsg, sizeof(m_szErrMsg), "onAccept %s,%d,max clients errno=%d,msg=%s", __FILE__, __LINE__, errno, strerror(errno));
 
-- 
2.43.0


From af6543fc88f1b65ea09a79b59a237015f35425fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:26 +0000
Subject: [PATCH 007/117] fix: CCommMgr refuses descriptors beyond its client
 table

---
 src/CCommMgr.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index ded1204..36a3fba 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -441,7 +441,7 @@ namespace lce
 
             stSession.ddwBeginTime = lce::GetTickCount();
 
-            if (m_dwClientNum >= m_dwMaxClient)
+            if (m_dwClientNum >= m_dwMaxClient || iClientSock >= (int)m_vecClients.size())
             {
                 snprintf(m_szErrMsg, sizeof(m_szErrMsg), "onAccept %s,%d,max clients errno=%d,msg=%s", __FILE__, __LINE__, errno, strerror(errno));
 
@@ -841,6 +841,13 @@ namespace lce
                 return -1;
             }
 
+            if (iFd >= (int)m_vecClients.size())
+            {
+                lce::Close(iFd);
+                snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,connect error too many clients", __FILE__, __LINE__);
+                return -1;
+            }
+
             m_vecClients[iFd].iSrvId = pstServerInfo->iSrvId;
 
             lce::SetReUseAddr(iFd);
-- 
2.43.0


From fcf09d5e39c21e3887bfdd1b0a13886760f1a05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:26 +0000
Subject: [PATCH 008/117] fix: CCommMgr gives up a connection completely when
 it cannot be watched

---
 src/CCommMgr.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index 36a3fba..35caf74 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -474,9 +474,9 @@ namespace lce
 
             if (m_oCEvent.addFdEvent(iClientSock, CEvent::EV_READ, std::bind(&CCommMgr::onTcpRead, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
             {
+                close(iClientSock);
                 if (pstServerInfo->pProcessor != NULL)
                     pstServerInfo->pProcessor->onError(stSession, m_oCEvent.getErrorMsg(), ERR_SOCKET);
-                lce::Close(iClientSock);
                 continue;
             }
         }
@@ -514,6 +514,7 @@ namespace lce
             {
                 if (m_oCEvent.addFdEvent(pstClientInfo->iFd, CEvent::EV_READ, std::bind(&CCommMgr::onTcpRead, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
                 {
+                    close(iFd);
                     if (pstServerInfo->pProcessor != NULL)
                         pstServerInfo->pProcessor->onError(stSession, m_oCEvent.getErrorMsg(), ERR_SOCKET);
                 }
-- 
2.43.0


From d15f50d8d4d0b44e8d22cbbc2dee33b82724a4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:49 +0000
Subject: [PATCH 009/117] fix: CCommMgr never acts on a new connection through
 a session that is over

---
 include/CCommMgr.h |  3 +++
 include/Define.h   |  2 ++
 src/CCommMgr.cpp   | 37 +++++++++++++++++++++++++++----------
 3 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/include/CCommMgr.h b/include/CCommMgr.h
index 872ef40..549faaa 100755
--- a/include/CCommMgr.h
+++ b/include/CCommMgr.h
@@ -41,6 +41,7 @@ namespace lce
             }
             m_dwMaxClient = dwMaxClient;
             m_dwClientNum = 0;
+            m_ddwConnId = 0;
             m_vecClients.resize(dwMaxClient * MAGIC_FD_TIMES);
             return 0;
         }
@@ -95,6 +96,7 @@ namespace lce
         int close(int iFd);
         int write(int iFd);
         inline bool isClose(int iFd);
+        bool isClose(const StSession &stSession);
 
         CCommMgr() {}
         CCommMgr &operator=(const CCommMgr &);
@@ -109,6 +111,7 @@ namespace lce
         static CCommMgr *m_pInstance;
         uint32_t m_dwMaxClient;
         uint32_t m_dwClientNum;
+        uint64_t m_ddwConnId;
     };
 };
 
diff --git a/include/Define.h b/include/Define.h
index e2aa5a6..963cb9e 100644
--- a/include/Define.h
+++ b/include/Define.h
@@ -16,6 +16,7 @@ namespace lce
 		void *pData;
 		struct sockaddr_in stClientAddr;
 		uint64_t ddwBeginTime;
+		uint64_t ddwConnId; // which of the connections that used iFd, 0: the current one
 		int64_t getDelayTime()
 		{
 			uint64_t ddwCurTime = lce::GetTickCount();
@@ -98,6 +99,7 @@ namespace lce
 		CSocketBuf *pSocketSendBuf;
 		sockaddr_in stClientAddr;
 		uint64_t ddwBeginTime;
+		uint64_t ddwConnId;
 		~StClientInfo()
 		{
 			if (pSocketRecvBuf != NULL)
diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index 35caf74..0db43a8 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -312,6 +312,7 @@ namespace lce
         stSession.iFd = iFd;
         stSession.iSvrId = pstServerInfo->iSrvId;
         stSession.stClientAddr = pstClientInfo->stClientAddr;
+        stSession.ddwConnId = pstClientInfo->ddwConnId;
 
         if (pstClientInfo->pSocketRecvBuf == NULL)
         {
@@ -362,7 +363,7 @@ namespace lce
                 if (pstServerInfo->pProcessor != NULL)
                     pstServerInfo->pProcessor->onRead(stSession, pstClientInfo->pSocketRecvBuf->getData(), iPkgLen);
 
-                if (isClose(iFd))
+                if (isClose(stSession))
                     break;
 
                 pstClientInfo->pSocketRecvBuf->removeData(iPkgLen);
@@ -381,7 +382,7 @@ namespace lce
 
             if (pstServerInfo->pProcessor != NULL)
                 pstServerInfo->pProcessor->onClose(stSession);
-            close(iFd);
+            close(stSession);
         }
         else
         {
@@ -390,7 +391,7 @@ namespace lce
             {
                 if (pstServerInfo->pProcessor != NULL)
                     pstServerInfo->pProcessor->onClose(stSession);
-                close(iFd);
+                close(stSession);
             }
             else if (errno == EAGAIN || errno == EINTR)
             {
@@ -457,6 +458,7 @@ namespace lce
             pstClientInfo->iSrvId = pstServerInfo->iSrvId;
             pstClientInfo->stClientAddr = stClientAddr;
             pstClientInfo->iFd = iClientSock;
+            pstClientInfo->ddwConnId = ++m_ddwConnId;
 
             m_dwClientNum++;
 
@@ -465,11 +467,12 @@ namespace lce
 
             stSession.iFd = iClientSock;
             stSession.stClientAddr = pstClientInfo->stClientAddr;
+            stSession.ddwConnId = pstClientInfo->ddwConnId;
 
             if (pstServerInfo->pProcessor)
                 pstServerInfo->pProcessor->onConnect(stSession, true, NULL);
 
-            if (isClose(iClientSock))
+            if (isClose(stSession))
                 continue;
 
             if (m_oCEvent.addFdEvent(iClientSock, CEvent::EV_READ, std::bind(&CCommMgr::onTcpRead, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
@@ -504,13 +507,14 @@ namespace lce
         stSession.iFd = iFd;
         stSession.iSvrId = pstServerInfo->iSrvId;
         stSession.stClientAddr = pstClientInfo->stClientAddr;
+        stSession.ddwConnId = pstClientInfo->ddwConnId;
 
         if (error == 0)
         {
             if (pstServerInfo->pProcessor != NULL)
                 pstServerInfo->pProcessor->onConnect(stSession, true, pData);
 
-            if (!isClose(iFd))
+            if (!isClose(stSession))
             {
                 if (m_oCEvent.addFdEvent(pstClientInfo->iFd, CEvent::EV_READ, std::bind(&CCommMgr::onTcpRead, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
                 {
@@ -524,14 +528,14 @@ namespace lce
         {
             if (pstServerInfo->pProcessor != NULL)
                 pstServerInfo->pProcessor->onConnect(stSession, false, pData);
-            close(iFd);
+            close(stSession);
         }
     }
 
     int CCommMgr::write(const StSession &stSession, const char *pszData, const int iSize, bool bClose)
     {
 
-        if (isClose(stSession.iFd))
+        if (isClose(stSession))
         {
             snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,write error maybe client have closed", __FILE__, __LINE__);
             return -1;
@@ -711,6 +715,7 @@ namespace lce
         stSession.stClientAddr = pstClientInfo->stClientAddr;
         stSession.iFd = iFd;
         stSession.iSvrId = pstServerInfo->iSrvId;
+        stSession.ddwConnId = pstClientInfo->ddwConnId;
 
         int iSendBufSize = pstClientInfo->pSocketSendBuf->getSize();
 
@@ -772,8 +777,9 @@ namespace lce
 
     int CCommMgr::close(const StSession &stSession)
     {
-        int iFd = stSession.iFd;
-        return close(iFd);
+        if (isClose(stSession))
+            return 0;
+        return close(stSession.iFd);
     }
 
     int CCommMgr::close(int iFd)
@@ -815,6 +821,15 @@ namespace lce
         return (m_vecClients[iFd].iFd == 0);
     }
 
+    // the connection is over, even if its descriptor serves another one by now
+    bool CCommMgr::isClose(const StSession &stSession)
+    {
+        int iFd = stSession.iFd;
+        if (iFd < 0 || iFd >= (int)m_vecClients.size() || isClose(iFd))
+            return true;
+        return stSession.ddwConnId != 0 && stSession.ddwConnId != m_vecClients[iFd].ddwConnId;
+    }
+
     int CCommMgr::connect(int iSrvId, const string &sIp, uint16_t wPort, void *pData)
     {
         if (iSrvId < 0 || iSrvId > (int)m_vecServers.size() - 1)
@@ -855,6 +870,7 @@ namespace lce
             lce::SetNoneBlock(iFd);
 
             m_vecClients[iFd].iFd = iFd;
+            m_vecClients[iFd].ddwConnId = ++m_ddwConnId;
             m_vecClients[iFd].stClientAddr.sin_family = AF_INET;
             m_vecClients[iFd].stClientAddr.sin_port = htons(wPort);
             m_vecClients[iFd].stClientAddr.sin_addr.s_addr = inet_addr(sIp.c_str());
@@ -869,11 +885,12 @@ namespace lce
                 stSession.iFd = iFd;
                 stSession.iSvrId = pstServerInfo->iSrvId;
                 stSession.stClientAddr = m_vecClients[iFd].stClientAddr;
+                stSession.ddwConnId = m_vecClients[iFd].ddwConnId;
 
                 if (pstServerInfo->pProcessor != NULL)
                     pstServerInfo->pProcessor->onConnect(stSession, true, pData);
 
-                if (isClose(iFd))
+                if (isClose(stSession))
                 {
                     snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,connect error maybe client have closed", __FILE__, __LINE__);
                     return -1;
-- 
2.43.0


From 81e40856a256952c144c7237b4fe8264a2113e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:49 +0000
Subject: [PATCH 010/117] fix: CCommMgr reads from a connection that was
 established at once

---
 src/CCommMgr.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index 0db43a8..819729b 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -895,6 +895,13 @@ namespace lce
                     snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,connect error maybe client have closed", __FILE__, __LINE__);
                     return -1;
                 }
+
+                if (m_oCEvent.addFdEvent(iFd, CEvent::EV_READ, std::bind(&CCommMgr::onTcpRead, this, std::placeholders::_1, std::placeholders::_2), &m_vecClients[iFd]) != 0)
+                {
+                    close(iFd);
+                    snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,connect error:%s", __FILE__, __LINE__, m_oCEvent.getErrorMsg());
+                    return -1;
+                }
                 return iFd;
             }
             else
-- 
2.43.0


From 12307a401b1868c4714f828c5bfc0b5851bc13be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:49 +0000
Subject: [PATCH 011/117] fix: CNetWorker::onConnect gets the session of the
 new connection

---
 src/CNetWorker.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/CNetWorker.cpp b/src/CNetWorker.cpp
index 730d9b5..dcacc10 100755
--- a/src/CNetWorker.cpp
+++ b/src/CNetWorker.cpp
@@ -286,22 +286,23 @@ namespace lce
 
 			if (pstClientInfo != NULL)
 			{
-				m_vecClients[pstClientInfo->iFd] = pstClientInfo;
+				int iClientFd = pstClientInfo->iFd;
+				m_vecClients[iClientFd] = pstClientInfo;
 
 				StSession stSession;
 				stSession.ddwBeginTime = pstClientInfo->ddwBeginTime;
-				stSession.iFd = iFd;
+				stSession.iFd = iClientFd;
 				stSession.iSvrId = pstClientInfo->pstServerInfo->iSrvId;
 				stSession.stClientAddr = pstClientInfo->stClientAddr;
 
 				onConnect(stSession, true, pstClientInfo);
 
-				if (isClose(pstClientInfo->iFd))
+				if (isClose(iClientFd))
 					continue;
 
-				if (m_oEvent.addFdEvent(pstClientInfo->iFd, CEvent::EV_READ, std::bind(&CNetWorker::onTcpRead, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
+				if (m_oEvent.addFdEvent(iClientFd, CEvent::EV_READ, std::bind(&CNetWorker::onTcpRead, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
 				{
-					close(iFd);
+					close(iClientFd);
 					snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s", m_oEvent.getErrorMsg());
 					onError(stSession, m_szErrMsg, ERR_OP_EVENT);
 				}
-- 
2.43.0


From 40ebfc1ad6b7a42e9bae26945a57c61aeb20d16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:49 +0000
Subject: [PATCH 012/117] fix: CNetWorker never acts on a new connection
 through a session that is over

---
 include/CNetWorker.h | 11 +++++++++++
 src/CNetWorker.cpp   | 25 +++++++++++++++++--------
 2 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/include/CNetWorker.h b/include/CNetWorker.h
index b22e51f..1f6b42a 100755
--- a/include/CNetWorker.h
+++ b/include/CNetWorker.h
@@ -32,6 +32,7 @@ namespace lce
 		CNetWorker()
 		{
 			m_iEventFd = 0;
+			m_ddwConnId = 0;
 		}
 
 		virtual ~CNetWorker()
@@ -106,6 +107,15 @@ namespace lce
 		{
 			return (m_vecClients[iFd] == NULL);
 		}
+
+		// the connection is over, even if its descriptor serves another one by now
+		inline bool isClose(const StSession &stSession)
+		{
+			int iFd = stSession.iFd;
+			if (iFd < 0 || iFd >= (int)m_vecClients.size() || isClose(iFd))
+				return true;
+			return stSession.ddwConnId != 0 && stSession.ddwConnId != m_vecClients[iFd]->ddwConnId;
+		}
 		int close(int iFd);
 		int write(int iFd);
 
@@ -123,6 +133,7 @@ namespace lce
 		map<uint32_t, StServerInfo *> m_mapServers;
 		CCircleQueue<StClientInfo *> m_queConn;
 		int m_iEventFd;
+		uint64_t m_ddwConnId;
 	};
 };
 
diff --git a/src/CNetWorker.cpp b/src/CNetWorker.cpp
index dcacc10..f6ebf7b 100755
--- a/src/CNetWorker.cpp
+++ b/src/CNetWorker.cpp
@@ -127,6 +127,7 @@ namespace lce
 			StClientInfo *pstClientInfo = new StClientInfo;
 			pstClientInfo->iFd = lce::CreateTcpSock();
 			pstClientInfo->pstServerInfo = pstServerInfo;
+			pstClientInfo->ddwConnId = ++m_ddwConnId;
 			pstClientInfo->ddwBeginTime = lce::GetTickCount();
 
 			if (pstClientInfo->iFd < 0)
@@ -154,10 +155,11 @@ namespace lce
 				stSession.iFd = pstClientInfo->iFd;
 				stSession.iSvrId = pstServerInfo->iSrvId;
 				stSession.stClientAddr = pstClientInfo->stClientAddr;
+				stSession.ddwConnId = pstClientInfo->ddwConnId;
 				m_vecClients[pstClientInfo->iFd] = pstClientInfo;
 				onConnect(stSession, true, pData);
 
-				if (isClose(pstClientInfo->iFd))
+				if (isClose(stSession))
 				{
 					snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,connect error maybe client have closed", __FILE__, __LINE__);
 					return -1;
@@ -221,12 +223,13 @@ namespace lce
 		stSession.iFd = iFd;
 		stSession.iSvrId = pstServerInfo->iSrvId;
 		stSession.stClientAddr = pstClientInfo->stClientAddr;
+		stSession.ddwConnId = pstClientInfo->ddwConnId;
 
 		if (error == 0)
 		{
 			onConnect(stSession, true, pData);
 
-			if (!isClose(iFd))
+			if (!isClose(stSession))
 			{
 
 				if (m_oEvent.addFdEvent(pstClientInfo->iFd, CEvent::EV_READ, std::bind(&CNetWorker::onTcpRead, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
@@ -240,7 +243,7 @@ namespace lce
 		else
 		{
 			onConnect(stSession, false, pData);
-			close(iFd);
+			close(stSession);
 		}
 	}
 
@@ -288,16 +291,18 @@ namespace lce
 			{
 				int iClientFd = pstClientInfo->iFd;
 				m_vecClients[iClientFd] = pstClientInfo;
+				pstClientInfo->ddwConnId = ++m_ddwConnId;
 
 				StSession stSession;
 				stSession.ddwBeginTime = pstClientInfo->ddwBeginTime;
 				stSession.iFd = iClientFd;
 				stSession.iSvrId = pstClientInfo->pstServerInfo->iSrvId;
 				stSession.stClientAddr = pstClientInfo->stClientAddr;
+				stSession.ddwConnId = pstClientInfo->ddwConnId;
 
 				onConnect(stSession, true, pstClientInfo);
 
-				if (isClose(iClientFd))
+				if (isClose(stSession))
 					continue;
 
 				if (m_oEvent.addFdEvent(iClientFd, CEvent::EV_READ, std::bind(&CNetWorker::onTcpRead, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
@@ -320,6 +325,7 @@ namespace lce
 		stSession.iFd = iFd;
 		stSession.iSvrId = pstClientInfo->pstServerInfo->iSrvId;
 		stSession.stClientAddr = pstClientInfo->stClientAddr;
+		stSession.ddwConnId = pstClientInfo->ddwConnId;
 
 		if (pstClientInfo->pSocketRecvBuf == NULL)
 		{
@@ -364,7 +370,7 @@ namespace lce
 			while ((iWholePkgFlag = pstClientInfo->pstServerInfo->pPackageFilter->isWholePkg(pstClientInfo->pSocketRecvBuf->getData(), pstClientInfo->pSocketRecvBuf->getSize(), iRealPkgLen, iPkgLen)) == 0)
 			{
 				onRead(stSession, pstClientInfo->pSocketRecvBuf->getData(), iPkgLen);
-				if (isClose(iFd))
+				if (isClose(stSession))
 					break;
 				pstClientInfo->pSocketRecvBuf->removeData(iPkgLen);
 			}
@@ -378,14 +384,14 @@ namespace lce
 		else if (iSize == 0)
 		{
 			onClose(stSession);
-			close(iFd);
+			close(stSession);
 		}
 		else
 		{
 			if (errno == 104) // Connection reset by peer
 			{
 				onClose(stSession);
-				close(iFd);
+				close(stSession);
 			}
 			else if (errno == EAGAIN || errno == EINTR) // ��������������IO��������������ر�����
 			{
@@ -403,6 +409,8 @@ namespace lce
 
 	int CNetWorker::close(const StSession &stSession)
 	{
+		if (isClose(stSession))
+			return 0;
 		return close(stSession.iFd);
 	}
 
@@ -421,7 +429,7 @@ namespace lce
 	int CNetWorker::write(const StSession &stSession, const char *pszData, const int iSize, bool bClose)
 	{
 
-		if (isClose(stSession.iFd))
+		if (isClose(stSession))
 		{
 			snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,write error maybe client have closed", __FILE__, __LINE__);
 			return -1;
@@ -597,6 +605,7 @@ namespace lce
 		stSession.stClientAddr = pstClientInfo->stClientAddr;
 		stSession.iFd = iFd;
 		stSession.iSvrId = pstServerInfo->iSrvId;
+		stSession.ddwConnId = pstClientInfo->ddwConnId;
 
 		int iSendBufSize = pstClientInfo->pSocketSendBuf->getSize();
 
-- 
2.43.0


From fd9e6daba3b579e2b47469c2cd2f6a07977386b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:49 +0000
Subject: [PATCH 013/117] fix: CNetWorker reads from a connection that was
 established at once

---
 src/CNetWorker.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/CNetWorker.cpp b/src/CNetWorker.cpp
index f6ebf7b..5f218f1 100755
--- a/src/CNetWorker.cpp
+++ b/src/CNetWorker.cpp
@@ -164,7 +164,14 @@ namespace lce
 					snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,connect error maybe client have closed", __FILE__, __LINE__);
 					return -1;
 				}
-				return pstClientInfo->iFd;
+
+				if (m_oEvent.addFdEvent(stSession.iFd, CEvent::EV_READ, std::bind(&CNetWorker::onTcpRead, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
+				{
+					close(stSession.iFd);
+					snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s", m_oEvent.getErrorMsg());
+					return -1;
+				}
+				return stSession.iFd;
 			}
 			else
 			{
-- 
2.43.0


From 9b78ba1a1ab02a2f263b77a4388cdc78ddbabbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:49 +0000
Subject: [PATCH 014/117] fix: CNetWorker refuses descriptors beyond its client
 table

---
 src/CNetWorker.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/CNetWorker.cpp b/src/CNetWorker.cpp
index 5f218f1..24838f8 100755
--- a/src/CNetWorker.cpp
+++ b/src/CNetWorker.cpp
@@ -138,6 +138,14 @@ namespace lce
 				return -1;
 			}
 
+			if (pstClientInfo->iFd >= (int)m_vecClients.size())
+			{
+				lce::Close(pstClientInfo->iFd);
+				delete pstClientInfo;
+				snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,connect error too many clients", __FILE__, __LINE__);
+				return -1;
+			}
+
 			lce::SetReUseAddr(pstClientInfo->iFd);
 			lce::SetNoneBlock(pstClientInfo->iFd);
 
-- 
2.43.0


From 1108babe539d3f957ed82cd8230ff38098e4606b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:49 +0000
Subject: [PATCH 015/117] fix: CNetWorkerMgr starts counting clients at zero

---
 include/CNetWorkerMgr.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/CNetWorkerMgr.h b/include/CNetWorkerMgr.h
index 0ac2043..3a8034e 100644
--- a/include/CNetWorkerMgr.h
+++ b/include/CNetWorkerMgr.h
@@ -78,6 +78,7 @@ namespace lce
 		}
 
 		m_dwMaxClient = dwMaxClient;
+		m_dwClientNum = 0;
 		m_pErrHandler = NULL;
 
 		for (int i = 0; i < dwThreadNum; i++)
-- 
2.43.0


From c59cf9ad709bb9b14c2c9358291beb2a2a71c906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:25 +0000
Subject: [PATCH 016/117] fix: CCommMgr::rmSrv closes the connections of the
 server it removes

---
 src/CCommMgr.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index 819729b..51e9e1c 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -1013,6 +1013,12 @@ namespace lce
             lce::Close(pstServerInfo->iFd);
         }
 
+        for (size_t i = 0; i < m_vecClients.size(); i++)
+        {
+            if (m_vecClients[i].iFd != 0 && m_vecClients[i].iSrvId == iSrvId)
+                close(m_vecClients[i].iFd);
+        }
+
         delete pstServerInfo;
 
         m_vecServers[iSrvId] = NULL;
-- 
2.43.0


From 977105e026e45be4577b4cedaa01b3aa9659d5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:25 +0000
Subject: [PATCH 017/117] fix: ~CCommMgr skips removed servers and closes only
 sockets it opened

---
 src/CCommMgr.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index 51e9e1c..4c9034d 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -1037,7 +1037,10 @@ namespace lce
 
         for (vector<StServerInfo *>::iterator it = m_vecServers.begin(); it != m_vecServers.end(); ++it)
         {
-            lce::Close((*it)->iFd);
+            if (*it == NULL)
+                continue;
+            if ((*it)->iFd > 0)
+                lce::Close((*it)->iFd);
             delete (*it);
         }
     }
-- 
2.43.0


From 214fa60298dca07b85b4a6f3dff13aa94d3f3703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:31 +0000
Subject: [PATCH 018/117] fix: CEvent timers beyond INT_MAX milliseconds still
 expire

---
 src/CEvent.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/CEvent.cpp b/src/CEvent.cpp
index 00fb1e6..05cf564 100644
--- a/src/CEvent.cpp
+++ b/src/CEvent.cpp
@@ -1,4 +1,5 @@
 #include "CEvent.h"
+#include <limits.h>
 
 using namespace std;
 namespace lce
@@ -312,6 +313,8 @@ namespace lce
                     {
                         if (it != m_setStTimeEvents.end() && (it->ddwMillSecs - ddwTimeNow) > 0)
                             ddwExpire = it->ddwMillSecs - ddwTimeNow;
+                        if (ddwExpire > INT_MAX)
+                            ddwExpire = INT_MAX;
                         break;
                     }
                 }
-- 
2.43.0


From 15850e74e681925e9a6a1e8a70b7ac8d7dfdccf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:31 +0000
Subject: [PATCH 019/117] fix: CEvent::addMessage never blocks on a full pipe
 while holding the lock

---
 src/CEvent.cpp | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/CEvent.cpp b/src/CEvent.cpp
index 05cf564..c36c4dd 100644
--- a/src/CEvent.cpp
+++ b/src/CEvent.cpp
@@ -1,5 +1,6 @@
 #include "CEvent.h"
 #include <limits.h>
+#include <errno.h>
 
 using namespace std;
 namespace lce
@@ -70,19 +71,22 @@ namespace lce
         }
 
         // set nonblock
-        int iOpts;
-        iOpts = fcntl(m_iMsgFd[0], F_GETFL);
-        if (iOpts < 0)
+        for (int i = 0; i < 2; i++)
         {
-            snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d CEvent::init fcntl error", __FILE__, __LINE__);
-            return -1;
-        }
-        iOpts = iOpts | O_NONBLOCK;
+            int iOpts;
+            iOpts = fcntl(m_iMsgFd[i], F_GETFL);
+            if (iOpts < 0)
+            {
+                snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d CEvent::init fcntl error", __FILE__, __LINE__);
+                return -1;
+            }
+            iOpts = iOpts | O_NONBLOCK;
 
-        if (fcntl(m_iMsgFd[0], F_SETFL, iOpts) < 0)
-        {
-            snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d CEvent::init fcntl error", __FILE__, __LINE__);
-            return -1;
+            if (fcntl(m_iMsgFd[i], F_SETFL, iOpts) < 0)
+            {
+                snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d CEvent::init fcntl error", __FILE__, __LINE__);
+                return -1;
+            }
         }
 
         addFdEvent(m_iMsgFd[0], CEvent::EV_READ, NULL, NULL); // 自定义事件通知
@@ -258,6 +262,10 @@ namespace lce
 
         int iFlag = write(m_iMsgFd[1], "1", 1);
 
+        // a full pipe wakes the loop up all the same
+        if (iFlag < 0 && errno == EAGAIN)
+            iFlag = 0;
+
         ::pthread_mutex_unlock(&m_lock);
 
         if (iFlag < 0)
@@ -340,9 +348,11 @@ namespace lce
 
                             ::pthread_mutex_lock(&m_lock);
 
-                            int iFlag = read(m_iMsgFd[0], szBuf, 1);
+                            // never more bytes than messages, fewer when the pipe was full
+                            ssize_t iFlag = read(m_iMsgFd[0], szBuf, 1);
+                            (void)iFlag;
 
-                            if (!m_queMsgEvents.empty() && iFlag > 0)
+                            if (!m_queMsgEvents.empty())
                             {
                                 stMsgEvent = m_queMsgEvents.front();
                                 m_queMsgEvents.pop();
-- 
2.43.0


From e9f1b9ac6a11326126e767321092230b0f64acee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:31 +0000
Subject: [PATCH 020/117] fix: CEvent handlers may replace their own
 registration

---
 src/CEvent.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/CEvent.cpp b/src/CEvent.cpp
index c36c4dd..51b028e 100644
--- a/src/CEvent.cpp
+++ b/src/CEvent.cpp
@@ -374,7 +374,11 @@ namespace lce
                     {
                         StFdEvent &stFdEvent = m_stFdEvents[m_stEPollState.stEvents[i].data.fd];
                         if ((stFdEvent.iEventType & EV_READ) == EV_READ)
-                            stFdEvent.onRead(m_stEPollState.stEvents[i].data.fd, stFdEvent.pClientRData);
+                        {
+                            // a copy: the handler may replace its own registration
+                            HandlerEvent onRead = stFdEvent.onRead;
+                            onRead(m_stEPollState.stEvents[i].data.fd, stFdEvent.pClientRData);
+                        }
                     }
                 }
                 if (m_stEPollState.stEvents[i].events & EPOLLOUT)
@@ -382,7 +386,10 @@ namespace lce
 
                     StFdEvent &stFdEvent = m_stFdEvents[m_stEPollState.stEvents[i].data.fd];
                     if ((stFdEvent.iEventType & EV_WRITE) == EV_WRITE)
-                        stFdEvent.onWrite(m_stEPollState.stEvents[i].data.fd, stFdEvent.pClientWData);
+                    {
+                        HandlerEvent onWrite = stFdEvent.onWrite;
+                        onWrite(m_stEPollState.stEvents[i].data.fd, stFdEvent.pClientWData);
+                    }
                 }
             }
         }
-- 
2.43.0


From f489bd0f5dcd8fb09d9d900839d849a45ddac42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:56 +0000
Subject: [PATCH 021/117] fix: CEvent drops events of a descriptor's previous
 use

---
 include/CEvent.h |  1 +
 src/CEvent.cpp   | 26 +++++++++++++++-----------
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/include/CEvent.h b/include/CEvent.h
index 0801ab0..556a9c0 100755
--- a/include/CEvent.h
+++ b/include/CEvent.h
@@ -52,6 +52,7 @@ namespace lce
             HandlerEvent onWrite;
             void *pClientRData;
             void *pClientWData;
+            uint32_t dwSeq; // counts the registrations of this descriptor number
         } StFdEvent;
 
         typedef struct
diff --git a/src/CEvent.cpp b/src/CEvent.cpp
index 51b028e..171e21d 100644
--- a/src/CEvent.cpp
+++ b/src/CEvent.cpp
@@ -62,6 +62,7 @@ namespace lce
             m_stFdEvents[i].iEventType = EV_DONE;
             m_stFdEvents[i].pClientRData = NULL;
             m_stFdEvents[i].pClientWData = NULL;
+            m_stFdEvents[i].dwSeq = 0;
         }
 
         if (pipe(m_iMsgFd) != 0)
@@ -110,6 +111,9 @@ namespace lce
 
         int iOP = m_stFdEvents[iWatchFd].iEventType == EV_DONE ? EPOLL_CTL_ADD : EPOLL_CTL_MOD;
 
+        if (iOP == EPOLL_CTL_ADD)
+            m_stFdEvents[iWatchFd].dwSeq++;
+
         m_stFdEvents[iWatchFd].iEventType = m_stFdEvents[iWatchFd].iEventType | iEventType;
 
         if (m_stFdEvents[iWatchFd].iEventType & EV_READ)
@@ -117,8 +121,7 @@ namespace lce
         if (m_stFdEvents[iWatchFd].iEventType & EV_WRITE)
             stEvent.events |= EPOLLOUT;
 
-        stEvent.data.u64 = 0; /* avoid valgrind warning */
-        stEvent.data.fd = iWatchFd;
+        stEvent.data.u64 = (uint64_t)m_stFdEvents[iWatchFd].dwSeq << 32 | (uint32_t)iWatchFd;
 
         if (iEventType & EV_READ)
         {
@@ -163,8 +166,7 @@ namespace lce
         if (m_stFdEvents[iWatchFd].iEventType & EV_WRITE)
             stEvent.events |= EPOLLOUT;
 
-        stEvent.data.u64 = 0; /* avoid valgrind warning */
-        stEvent.data.fd = iWatchFd;
+        stEvent.data.u64 = (uint64_t)m_stFdEvents[iWatchFd].dwSeq << 32 | (uint32_t)iWatchFd;
 
         if (m_stFdEvents[iWatchFd].iEventType != EV_DONE)
         {
@@ -332,12 +334,14 @@ namespace lce
 
             for (int i = 0; i < iEventNum; i++)
             {
+                int iFd = (int)(uint32_t)m_stEPollState.stEvents[i].data.u64;
+                uint32_t dwSeq = m_stEPollState.stEvents[i].data.u64 >> 32;
 
                 if ((m_stEPollState.stEvents[i].events & EPOLLIN) ||
                     (m_stEPollState.stEvents[i].events & EPOLLERR) ||
                     (m_stEPollState.stEvents[i].events & EPOLLHUP))
                 {
-                    if (m_stEPollState.stEvents[i].data.fd == m_iMsgFd[0]) // 自定义事件
+                    if (iFd == m_iMsgFd[0]) // 自定义事件
                     {
                         char szBuf[1];
 
@@ -372,23 +376,23 @@ namespace lce
                     }
                     else
                     {
-                        StFdEvent &stFdEvent = m_stFdEvents[m_stEPollState.stEvents[i].data.fd];
-                        if ((stFdEvent.iEventType & EV_READ) == EV_READ)
+                        StFdEvent &stFdEvent = m_stFdEvents[iFd];
+                        if ((stFdEvent.iEventType & EV_READ) == EV_READ && stFdEvent.dwSeq == dwSeq)
                         {
                             // a copy: the handler may replace its own registration
                             HandlerEvent onRead = stFdEvent.onRead;
-                            onRead(m_stEPollState.stEvents[i].data.fd, stFdEvent.pClientRData);
+                            onRead(iFd, stFdEvent.pClientRData);
                         }
                     }
                 }
                 if (m_stEPollState.stEvents[i].events & EPOLLOUT)
                 {
 
-                    StFdEvent &stFdEvent = m_stFdEvents[m_stEPollState.stEvents[i].data.fd];
-                    if ((stFdEvent.iEventType & EV_WRITE) == EV_WRITE)
+                    StFdEvent &stFdEvent = m_stFdEvents[iFd];
+                    if ((stFdEvent.iEventType & EV_WRITE) == EV_WRITE && stFdEvent.dwSeq == dwSeq)
                     {
                         HandlerEvent onWrite = stFdEvent.onWrite;
-                        onWrite(m_stEPollState.stEvents[i].data.fd, stFdEvent.pClientWData);
+                        onWrite(iFd, stFdEvent.pClientWData);
                     }
                 }
             }
-- 
2.43.0


From e0854936fa8a9a4c5ff7cfbb7f97d93ef4fa6458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:53 +0000
Subject: [PATCH 022/117] fix: CEvent keeps its bookkeeping right when a
 registration fails

---
 src/CEvent.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CEvent.cpp b/src/CEvent.cpp
index 171e21d..545e360 100644
--- a/src/CEvent.cpp
+++ b/src/CEvent.cpp
@@ -114,6 +114,7 @@ namespace lce
         if (iOP == EPOLL_CTL_ADD)
             m_stFdEvents[iWatchFd].dwSeq++;
 
+        int iOldType = m_stFdEvents[iWatchFd].iEventType;
         m_stFdEvents[iWatchFd].iEventType = m_stFdEvents[iWatchFd].iEventType | iEventType;
 
         if (m_stFdEvents[iWatchFd].iEventType & EV_READ)
@@ -137,6 +138,7 @@ namespace lce
 
         if (epoll_ctl(m_stEPollState.iEPollFd, iOP, iWatchFd, &stEvent) == -1)
         {
+            m_stFdEvents[iWatchFd].iEventType = iOldType;
             snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d CEvent::addFdEvent epoll_ctl error", __FILE__, __LINE__);
             return -1;
         }
-- 
2.43.0


From 4eb3f266d84942b99beabb25bab9461a4c49c1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:24 +0000
Subject: [PATCH 023/117] fix: a default constructed CSocketBuf knows it is
 empty

---
 include/CSocketBuf.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/CSocketBuf.h b/include/CSocketBuf.h
index 93c0233..1d0f4d2 100644
--- a/include/CSocketBuf.h
+++ b/include/CSocketBuf.h
@@ -20,6 +20,7 @@ namespace lce
 			: m_iDataBeginPos(0), m_iDataEndPos(0), m_iDataAllowMaxSize(0), m_iInitSize(0)
 		{
 			m_pszBuf = NULL;
+			m_iBufSize = 0;
 		}
 
 		~CSocketBuf()
-- 
2.43.0


From 3ec0ca8ba6393cbc5a9c1913523e39c480956c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:19 +0000
Subject: [PATCH 024/117] fix: CBlockQueue::pop keeps the lock after waiting

---
 include/CBlockQueue.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/CBlockQueue.h b/include/CBlockQueue.h
index 89199ad..1c4e868 100644
--- a/include/CBlockQueue.h
+++ b/include/CBlockQueue.h
@@ -155,7 +155,6 @@ namespace lce
                 if (m_dwSize <= 0)
                 {
                     pthread_cond_wait(m_cond, m_mutex);
-                    pthread_mutex_unlock(m_mutex);
                     continue;
                 }
                 else
-- 
2.43.0


From 1aa5273ee3f1f69ce5d7e7a573dc0761a592e218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:36 +0000
Subject: [PATCH 025/117] fix: CBlockQueue::front returns the item pop returns
 next

---
 include/CBlockQueue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/CBlockQueue.h b/include/CBlockQueue.h
index 1c4e868..bc57310 100644
--- a/include/CBlockQueue.h
+++ b/include/CBlockQueue.h
@@ -88,7 +88,7 @@ namespace lce
                 pthread_mutex_unlock(m_mutex);
                 return false;
             }
-            value = m_pData[m_dwFront];
+            value = m_pData[(m_dwFront + 1) % m_dwMaxSize];
             pthread_mutex_unlock(m_mutex);
             return true;
         }
-- 
2.43.0


From e98e1b35c1fcb4e3a5d906cb863d1ad67b3414af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:51 +0000
Subject: [PATCH 026/117] fix: CBlockQueue's timed pop waits for the whole
 timeout

---
 include/CBlockQueue.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/CBlockQueue.h b/include/CBlockQueue.h
index bc57310..aed07d0 100644
--- a/include/CBlockQueue.h
+++ b/include/CBlockQueue.h
@@ -177,14 +177,19 @@ namespace lce
             struct timeval now = {0, 0};
             gettimeofday(&now, 0);
             pthread_mutex_lock(m_mutex);
-            if (m_dwSize <= 0)
+            t.tv_sec = now.tv_sec + timeout / 1000;
+            t.tv_nsec = now.tv_usec * 1000L + (timeout % 1000) * 1000000L;
+            if (t.tv_nsec >= 1000000000L)
+            {
+                t.tv_sec++;
+                t.tv_nsec -= 1000000000L;
+            }
+
+            while (m_dwSize <= 0)
             {
-                t.tv_sec = now.tv_sec + timeout / 1000;
-                t.tv_nsec = (timeout % 1000) * 1000;
                 if (0 != pthread_cond_timedwait(m_cond, m_mutex, &t))
                 {
-                    pthread_mutex_unlock(m_mutex);
-                    return false;
+                    break;
                 }
             }
 
-- 
2.43.0


From 74173c5839d1da3ec1074b924bf9a9e622313dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:17 +0000
Subject: [PATCH 027/117] fix: Condition's timed wait uses the clock the
 condition uses

---
 include/CLock.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/CLock.h b/include/CLock.h
index 4e13eb2..ba644b0 100644
--- a/include/CLock.h
+++ b/include/CLock.h
@@ -118,9 +118,14 @@ namespace lce
 		bool wait(CMutex &m, int iWaitTime)
 		{
 			struct timespec tv;
-			clock_gettime(CLOCK_MONOTONIC, &tv);
+			clock_gettime(CLOCK_REALTIME, &tv);
 			tv.tv_sec += iWaitTime / 1000;
 			tv.tv_nsec += (iWaitTime % 1000) * 1000000;
+			if (tv.tv_nsec >= 1000000000)
+			{
+				tv.tv_sec++;
+				tv.tv_nsec -= 1000000000;
+			}
 
 			return 0 == ::pthread_cond_timedwait(&m_sect, &m.m_lock, &tv);
 		}
-- 
2.43.0


From b9482f1d1de360d8ba502e18042c719386bf7e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:17 +0000
Subject: [PATCH 028/117] fix: CThread clears the stop flag before the thread
 runs

---
 include/CThread.h | 2 +-
 src/CThread.cpp   | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/CThread.h b/include/CThread.h
index 1c7d4f5..c88996d 100644
--- a/include/CThread.h
+++ b/include/CThread.h
@@ -50,7 +50,7 @@ namespace lce
     private:
         pid_t m_iPid;
         pthread_t m_iId;
-        int m_iStop;
+        volatile int m_iStop;
     };
 };
 #endif
diff --git a/src/CThread.cpp b/src/CThread.cpp
index 81950de..09668b1 100644
--- a/src/CThread.cpp
+++ b/src/CThread.cpp
@@ -25,12 +25,13 @@ namespace lce
         sigaddset(&signal_mask, SIGPIPE);
         pthread_sigmask(SIG_BLOCK, &signal_mask, NULL);
 
+        m_iStop = 0;
         if (pthread_create(&m_iId, 0, CThread::procThread, this) != 0)
         {
+            m_iId = 0;
             snprintf(m_szErrMsg, sizeof(m_szErrMsg), "file:%s,line:%d,errno=%d,error=%s", __FILE__, __LINE__, errno, strerror(errno));
             return -1;
         }
-        m_iStop = 0;
 
         return 0;
     }
-- 
2.43.0


From bfc2eeffb38f5439e46953be696f6028d1d21b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:53 +0000
Subject: [PATCH 029/117] fix: CThread joins and detaches a thread only once

---
 include/CThread.h |  7 +++++++
 src/CThread.cpp   | 15 +++++++++++----
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/CThread.h b/include/CThread.h
index c88996d..052971a 100644
--- a/include/CThread.h
+++ b/include/CThread.h
@@ -39,6 +39,11 @@ namespace lce
         static void *procThread(void *pParam)
         {
             CThread *pCThread = (CThread *)pParam;
+            struct SDone
+            {
+                CThread *pThread;
+                ~SDone() { pThread->m_iDone = 1; }
+            } stDone = {pCThread};
             pCThread->run();
 
             return 0;
@@ -51,6 +56,8 @@ namespace lce
         pid_t m_iPid;
         pthread_t m_iId;
         volatile int m_iStop;
+        volatile int m_iDone;
+        bool m_bJoinable;
     };
 };
 #endif
diff --git a/src/CThread.cpp b/src/CThread.cpp
index 09668b1..6255ed7 100644
--- a/src/CThread.cpp
+++ b/src/CThread.cpp
@@ -8,12 +8,14 @@ namespace lce
         m_iId = 0;
         m_iPid = 0;
         m_iStop = 0;
+        m_iDone = 0;
+        m_bJoinable = false;
     }
 
     CThread::~CThread()
     {
-        detach();
         stop();
+        detach();
     }
 
     int CThread::start()
@@ -26,20 +28,23 @@ namespace lce
         pthread_sigmask(SIG_BLOCK, &signal_mask, NULL);
 
         m_iStop = 0;
+        m_iDone = 0;
         if (pthread_create(&m_iId, 0, CThread::procThread, this) != 0)
         {
             m_iId = 0;
             snprintf(m_szErrMsg, sizeof(m_szErrMsg), "file:%s,line:%d,errno=%d,error=%s", __FILE__, __LINE__, errno, strerror(errno));
             return -1;
         }
+        m_bJoinable = true;
 
         return 0;
     }
 
     int CThread::detach()
     {
-        if (m_iId > 0)
+        if (m_bJoinable)
         {
+            m_bJoinable = false;
             return pthread_detach(m_iId);
         }
 
@@ -48,8 +53,9 @@ namespace lce
 
     int CThread::join()
     {
-        if (m_iId > 0)
+        if (m_bJoinable)
         {
+            m_bJoinable = false;
             return pthread_join(m_iId, NULL);
         }
 
@@ -62,7 +68,8 @@ namespace lce
             return 0;
 
         m_iStop = 1;
-        if (m_iId > 0)
+        // a thread that is no longer joinable may be gone once run() has ended
+        if (m_iId > 0 && (m_bJoinable || !m_iDone))
         {
             return pthread_cancel(m_iId);
         }
-- 
2.43.0


From d4fed2b387002c77821e4b0a9320c8b2768ca6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:59 +0000
Subject: [PATCH 030/117] fix: CSingleton publishes its instance with
 release/acquire

---
 include/CSingleton.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/CSingleton.h b/include/CSingleton.h
index 07df132..7e93599 100644
--- a/include/CSingleton.h
+++ b/include/CSingleton.h
@@ -11,16 +11,19 @@ namespace lce
 	public:
 		static T &getInstance()
 		{
-			if (m_pInstance == NULL)
+			T *pInstance = __atomic_load_n(&m_pInstance, __ATOMIC_ACQUIRE);
+			if (pInstance == NULL)
 			{
 				pthread_mutex_lock(&m_mutex);
-				if (m_pInstance == NULL)
+				pInstance = m_pInstance;
+				if (pInstance == NULL)
 				{
-					m_pInstance = new T;
+					pInstance = new T;
+					__atomic_store_n(&m_pInstance, pInstance, __ATOMIC_RELEASE);
 				}
 				pthread_mutex_unlock(&m_mutex);
 			}
-			return *m_pInstance;
+			return *pInstance;
 		}
 
 		~CSingleton() {}
-- 
2.43.0


From 0af445c59f1c849fde479a61541d2cb7b9afbc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:16 +0000
Subject: [PATCH 031/117] fix: a cancelled CTask thread releases the queue lock

---
 include/CTask.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/CTask.h b/include/CTask.h
index 1366d8b..87809a6 100644
--- a/include/CTask.h
+++ b/include/CTask.h
@@ -51,6 +51,7 @@ namespace lce
                     bool bHaveTask = false;
 
                     pthread_mutex_lock(&m_pTask->m_lock);
+                    pthread_cleanup_push(unlock, &m_pTask->m_lock); // stop() cancels the wait
 
                     if (m_pTask->m_queTaskQueue.empty())
                     {
@@ -63,7 +64,7 @@ namespace lce
                         bHaveTask = true;
                     }
 
-                    pthread_mutex_unlock(&m_pTask->m_lock);
+                    pthread_cleanup_pop(1);
 
                     if (bHaveTask)
                     {
@@ -74,6 +75,11 @@ namespace lce
             }
 
         private:
+            static void unlock(void *pLock)
+            {
+                pthread_mutex_unlock((pthread_mutex_t *)pLock);
+            }
+
             CTask *m_pTask;
             int m_iIndex;
         };
-- 
2.43.0


From 9e970d4aeab90982053cfe3417c9015a8343d012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:37 +0000
Subject: [PATCH 032/117] fix: ~CTask ends its threads before it destroys what
 they use

---
 src/CTask.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/CTask.cpp b/src/CTask.cpp
index bf5aa51..78fb5d1 100644
--- a/src/CTask.cpp
+++ b/src/CTask.cpp
@@ -23,7 +23,6 @@ namespace lce
         for (int i = 0; i < m_iThreadNum; i++)
         {
             m_vecTaskThreads[i]->start();
-            m_vecTaskThreads[i]->detach();
         }
         return 0;
     }
@@ -60,12 +59,15 @@ namespace lce
 
     CTask::~CTask()
     {
-        pthread_mutex_destroy(&m_lock);
-        pthread_cond_destroy(&m_cond);
-
+        // the threads use the lock and the queue until they have ended
         for (vector<CTaskThread *>::iterator it1 = m_vecTaskThreads.begin(); it1 != m_vecTaskThreads.end(); ++it1)
         {
+            (*it1)->stop();
+            (*it1)->join();
             delete (*it1);
         }
+
+        pthread_mutex_destroy(&m_lock);
+        pthread_cond_destroy(&m_cond);
     }
 };
-- 
2.43.0


From b7d3ae5d1e5dd6abbf01acda071df5f4f2df536f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:17 +0000
Subject: [PATCH 033/117] fix: CBitmap: the index equal to the size is outside

---
 include/CBitMap.h | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/include/CBitMap.h b/include/CBitMap.h
index 8c89402..20a5a14 100644
--- a/include/CBitMap.h
+++ b/include/CBitMap.h
@@ -65,7 +65,7 @@ namespace lce
 
 		bool get(const unsigned long dwIndex) const
 		{
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -82,7 +82,7 @@ namespace lce
 			static unsigned char caUinFlag[] = {0xfe, 0xfd, 0xfb, 0xf7, 0xef, 0xdf, 0xbf, 0x7f};
 			char cFlag = bVal ? 1 : 0;
 
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -167,7 +167,7 @@ namespace lce
 
 		int get(const unsigned long dwIndex) const
 		{
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -184,7 +184,7 @@ namespace lce
 			static unsigned char caUinFlag[] = {0xfc, 0xf3, 0xcf, 0x3f};
 			unsigned long ucFlag = ucVal;
 
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -267,7 +267,7 @@ namespace lce
 
 		int get(const unsigned long dwIndex) const
 		{
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -283,7 +283,7 @@ namespace lce
 			static unsigned long caUinFlag[] = {0xFFFFFFF8, 0xFFFFFFC7, 0xFFFFFE3F, 0xFFFFF1FF, 0xFFFF8FFF, 0xFFFC7FFF, 0xFFE3FFFF, 0xFF1FFFFF};
 			unsigned long dwFlag = ucVal;
 
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -366,7 +366,7 @@ namespace lce
 
 		int get(const unsigned long dwIndex) const
 		{
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -383,7 +383,7 @@ namespace lce
 			static unsigned char caUinFlag[] = {0xf0, 0x0f};
 			unsigned long ucFlag = ucVal;
 
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -466,7 +466,7 @@ namespace lce
 
 		int get(const unsigned long dwIndex) const
 		{
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -482,7 +482,7 @@ namespace lce
 			static uint64_t caUinFlag[] = {0xFFFFFFFFFFFFFFE0LL, 0xFFFFFFFFFFFFFC1FLL, 0xFFFFFFFFFFFF83FFLL, 0xFFFFFFFFFFF07FFFLL, 0xFFFFFFFFFE0FFFFFLL, 0xFFFFFFFFC1FFFFFFLL, 0xFFFFFFF83FFFFFFFLL, 0xFFFFFF07FFFFFFFFLL};
 			uint64_t ui64Flag = ucVal;
 
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -565,7 +565,7 @@ namespace lce
 
 		int get(const unsigned long dwIndex) const
 		{
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -581,7 +581,7 @@ namespace lce
 			static unsigned long caUinFlag[] = {0xFFFFFFC0, 0xFFFFF03F, 0xFFFC0FFF, 0xFF03FFFF};
 			unsigned long dwFlag = ucVal;
 
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -663,7 +663,7 @@ namespace lce
 
 		int get(const unsigned long dwIndex) const
 		{
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -673,7 +673,7 @@ namespace lce
 
 		bool set(const unsigned long dwIndex, const unsigned char ucVal)
 		{
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
-- 
2.43.0


From fc1175ed7e187791e03808032dd512135099599c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:48 +0000
Subject: [PATCH 034/117] fix: CBitmap<3>, <5>, <6>: access only the group of
 the field

---
 include/CBitMap.h | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/include/CBitMap.h b/include/CBitMap.h
index 20a5a14..fa886d9 100644
--- a/include/CBitMap.h
+++ b/include/CBitMap.h
@@ -272,7 +272,9 @@ namespace lce
 				return false;
 			}
 
-			unsigned long dwTmpValue = *(unsigned long *)(m_pDataPtr + (dwIndex / 8) * 3) >> (dwIndex % 8 * 3);
+			unsigned long dwTmpValue = 0;
+			memcpy(&dwTmpValue, m_pDataPtr + (dwIndex / 8) * 3, 3);
+			dwTmpValue = dwTmpValue >> (dwIndex % 8 * 3);
 			dwTmpValue = dwTmpValue & 0x7;
 			return dwTmpValue;
 		}
@@ -292,8 +294,11 @@ namespace lce
 
 			dwFlag = dwFlag << (iIndexBitPos * 3);
 
-			*(unsigned long *)(m_pDataPtr + (dwIndex / 8) * 3) &= caUinFlag[iIndexBitPos]; // 清位为0
-			*(unsigned long *)(m_pDataPtr + (dwIndex / 8) * 3) |= dwFlag;				   //
+			unsigned long dwTmpValue = 0;
+			memcpy(&dwTmpValue, m_pDataPtr + (dwIndex / 8) * 3, 3); // the group alone: the segment may end behind it
+			dwTmpValue &= caUinFlag[iIndexBitPos]; // 清位为0
+			dwTmpValue |= dwFlag;				   //
+			memcpy(m_pDataPtr + (dwIndex / 8) * 3, &dwTmpValue, 3);
 
 			return true;
 		}
@@ -471,7 +476,9 @@ namespace lce
 				return false;
 			}
 
-			uint64_t ui64TmpValue = *(int64_t *)(m_pDataPtr + (dwIndex / 8) * 5) >> (dwIndex % 8 * 5);
+			uint64_t ui64TmpValue = 0;
+			memcpy(&ui64TmpValue, m_pDataPtr + (dwIndex / 8) * 5, 5);
+			ui64TmpValue = ui64TmpValue >> (dwIndex % 8 * 5);
 			ui64TmpValue = ui64TmpValue & 0x1F;
 			return (int)ui64TmpValue;
 		}
@@ -491,8 +498,11 @@ namespace lce
 
 			ui64Flag = ui64Flag << (iIndexBitPos * 5);
 
-			*(uint64_t *)(m_pDataPtr + (dwIndex / 8) * 5) &= caUinFlag[iIndexBitPos]; // 清位为0
-			*(uint64_t *)(m_pDataPtr + (dwIndex / 8) * 5) |= ui64Flag;				  //
+			uint64_t ui64TmpValue = 0;
+			memcpy(&ui64TmpValue, m_pDataPtr + (dwIndex / 8) * 5, 5); // the group alone: the segment may end behind it
+			ui64TmpValue &= caUinFlag[iIndexBitPos]; // 清位为0
+			ui64TmpValue |= ui64Flag;				  //
+			memcpy(m_pDataPtr + (dwIndex / 8) * 5, &ui64TmpValue, 5);
 
 			return true;
 		}
@@ -570,7 +580,9 @@ namespace lce
 				return false;
 			}
 
-			unsigned long dwTmpValue = *(unsigned long *)(m_pDataPtr + (dwIndex / 4) * 3) >> (dwIndex % 4 * 6);
+			unsigned long dwTmpValue = 0;
+			memcpy(&dwTmpValue, m_pDataPtr + (dwIndex / 4) * 3, 3);
+			dwTmpValue = dwTmpValue >> (dwIndex % 4 * 6);
 			dwTmpValue = dwTmpValue & 0x3F;
 			return dwTmpValue;
 		}
@@ -590,8 +602,11 @@ namespace lce
 
 			dwFlag = dwFlag << (iIndexBitPos * 6);
 
-			*(unsigned long *)(m_pDataPtr + (dwIndex / 4) * 3) &= caUinFlag[iIndexBitPos]; // 清位为0
-			*(unsigned long *)(m_pDataPtr + (dwIndex / 4) * 3) |= dwFlag;				   //
+			unsigned long dwTmpValue = 0;
+			memcpy(&dwTmpValue, m_pDataPtr + (dwIndex / 4) * 3, 3); // the group alone: the segment may end behind it
+			dwTmpValue &= caUinFlag[iIndexBitPos]; // 清位为0
+			dwTmpValue |= dwFlag;				   //
+			memcpy(m_pDataPtr + (dwIndex / 4) * 3, &dwTmpValue, 3);
 
 			return true;
 		}
-- 
2.43.0


From ccdec8d70287d6fd2891658354c8d46e1211e763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:01 +0000
Subject: [PATCH 035/117] fix: CBitmap: a value too big for its field must not
 reach the next fields

---
 include/CBitMap.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/CBitMap.h b/include/CBitMap.h
index fa886d9..d1c639b 100644
--- a/include/CBitMap.h
+++ b/include/CBitMap.h
@@ -182,7 +182,7 @@ namespace lce
 		{
 			int iIndexBitPos;
 			static unsigned char caUinFlag[] = {0xfc, 0xf3, 0xcf, 0x3f};
-			unsigned long ucFlag = ucVal;
+			unsigned long ucFlag = ucVal & 0x3;
 
 			if (dwIndex >= m_dwMaxIndex)
 			{
@@ -283,7 +283,7 @@ namespace lce
 		{
 			int iIndexBitPos;
 			static unsigned long caUinFlag[] = {0xFFFFFFF8, 0xFFFFFFC7, 0xFFFFFE3F, 0xFFFFF1FF, 0xFFFF8FFF, 0xFFFC7FFF, 0xFFE3FFFF, 0xFF1FFFFF};
-			unsigned long dwFlag = ucVal;
+			unsigned long dwFlag = ucVal & 0x7;
 
 			if (dwIndex >= m_dwMaxIndex)
 			{
@@ -386,7 +386,7 @@ namespace lce
 		{
 			int iIndexBitPos;
 			static unsigned char caUinFlag[] = {0xf0, 0x0f};
-			unsigned long ucFlag = ucVal;
+			unsigned long ucFlag = ucVal & 0xF;
 
 			if (dwIndex >= m_dwMaxIndex)
 			{
@@ -487,7 +487,7 @@ namespace lce
 		{
 			int iIndexBitPos;
 			static uint64_t caUinFlag[] = {0xFFFFFFFFFFFFFFE0LL, 0xFFFFFFFFFFFFFC1FLL, 0xFFFFFFFFFFFF83FFLL, 0xFFFFFFFFFFF07FFFLL, 0xFFFFFFFFFE0FFFFFLL, 0xFFFFFFFFC1FFFFFFLL, 0xFFFFFFF83FFFFFFFLL, 0xFFFFFF07FFFFFFFFLL};
-			uint64_t ui64Flag = ucVal;
+			uint64_t ui64Flag = ucVal & 0x1F;
 
 			if (dwIndex >= m_dwMaxIndex)
 			{
@@ -591,7 +591,7 @@ namespace lce
 		{
 			int iIndexBitPos;
 			static unsigned long caUinFlag[] = {0xFFFFFFC0, 0xFFFFF03F, 0xFFFC0FFF, 0xFF03FFFF};
-			unsigned long dwFlag = ucVal;
+			unsigned long dwFlag = ucVal & 0x3F;
 
 			if (dwIndex >= m_dwMaxIndex)
 			{
-- 
2.43.0


From 4ced58998cc51f0d842270d33027f993026a0cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:38 +0000
Subject: [PATCH 036/117] fix: CShm: no buffer after a failed attach

---
 include/CShm.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/CShm.h b/include/CShm.h
index 9b55613..ea836d4 100644
--- a/include/CShm.h
+++ b/include/CShm.h
@@ -42,6 +42,7 @@ namespace lce
 			m_bCreate = false;
 			if ((m_pShmBuf = (shmat(m_iShmID, NULL, 0))) == (char *)-1)
 			{
+				m_pShmBuf = NULL;
 				snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shmat error:%s", strerror(errno));
 				return false;
 			}
@@ -132,6 +133,7 @@ namespace lce
 
 		if ((m_pShmBuf = (shmat(m_iShmID, NULL, bReadOnly ? SHM_RDONLY : 0))) == (char *)-1)
 		{
+			m_pShmBuf = NULL;
 			snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shmat<m_iShmID=%d> error:%s", m_iShmID, strerror(errno));
 			return false;
 		}
-- 
2.43.0


From bc34fe59015cc5316cd5218ef1dd2f9a467179f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:56 +0000
Subject: [PATCH 037/117] fix: CShm: a segment that could not be attached after
 its creation is removed

---
 include/CShm.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/CShm.h b/include/CShm.h
index ea836d4..01eab84 100644
--- a/include/CShm.h
+++ b/include/CShm.h
@@ -135,6 +135,13 @@ namespace lce
 		{
 			m_pShmBuf = NULL;
 			snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shmat<m_iShmID=%d> error:%s", m_iShmID, strerror(errno));
+			if (m_bCreate)
+			{
+				// a later attempt must create it again, and initialise it
+				shmctl(m_iShmID, IPC_RMID, NULL);
+				m_bCreate = false;
+				m_iShmID = 0;
+			}
 			return false;
 		}
 
-- 
2.43.0


From 01a8c632e5197a56a161628d9708b270294ee817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:45 +0000
Subject: [PATCH 038/117] fix: CAnyValue::asInt64/asUInt/asUInt64 return the
 type they name

---
 include/CAnyValue.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 4cb503d..ebbe1fa 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -256,21 +256,21 @@ namespace lce
             return 0;
         }
 
-        int asInt64() const
+        int64_t asInt64() const
         {
             if (DType::Integer == m_ucType || DType::Bool == m_ucType || DType::SInteger == m_ucType)
                 return static_cast<int64_t>(m_value.integer);
             return 0;
         }
 
-        int asUInt() const
+        uint32_t asUInt() const
         {
             if (DType::Integer == m_ucType || DType::Bool == m_ucType || DType::SInteger == m_ucType)
                 return static_cast<uint32_t>(m_value.integer);
             return 0;
         }
 
-        int asUInt64() const
+        uint64_t asUInt64() const
         {
             if (DType::Integer == m_ucType || DType::Bool == m_ucType || DType::SInteger == m_ucType)
                 return static_cast<uint64_t>(m_value.integer);
-- 
2.43.0


From 0ef69fde06c73dc2b9a3b369cfd6296b5e2f53fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:45 +0000
Subject: [PATCH 039/117] fix: CAnyValue assignment copies the right side
 before releasing the left

---
 include/CAnyValue.h | 53 ++++++++++++++++-----------------------------
 1 file changed, 19 insertions(+), 34 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index ebbe1fa..6450de8 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -233,7 +233,7 @@ namespace lce
         }
 
         CAnyValue(const CAnyValue &rhs)
-            : m_bInit(false)
+            : m_ucType(DType::Null), m_ucSubType(DType::Null), m_bInit(false), m_bHasData(false)
         {
             init();
             assign(rhs);
@@ -1926,49 +1926,34 @@ namespace lce
 
         void assign(const this_type &rhs)
         {
-            if (m_ucType == DType::String)
-                delete m_value.buf;
-            if (m_ucType == DType::Vector)
-                delete m_value.vec;
-            if (m_ucType == DType::Map)
-                delete m_value.map;
+            // rhs may live inside this value: copy it before anything is released
+            ValueHolder value = rhs.m_value;
+            const unsigned char ucType = rhs.m_ucType;
+            const unsigned char ucSubType = rhs.m_ucSubType;
+            const bool bHasData = rhs.m_bHasData;
 
-            if (rhs.m_ucType == DType::Integer)
+            if (ucType == DType::Map)
             {
-                m_value.integer = rhs.m_value.integer;
+                value.map = new MapType(*rhs.m_value.map);
             }
-
-            if (rhs.m_ucType == DType::SInteger)
+            else if (ucType == DType::Vector)
             {
-                m_value.integer = rhs.m_value.integer;
+                value.vec = new VecType(*rhs.m_value.vec);
             }
-
-            if (rhs.m_ucType == DType::Bool)
+            else if (ucType == DType::String)
             {
-                m_value.integer = rhs.m_value.integer;
+                value.buf = new BufType(*rhs.m_value.buf);
             }
-
-            if (rhs.m_ucType == DType::Float)
+            else if (ucType == DType::Null)
             {
-                m_value.flValue = rhs.m_value.flValue;
+                memset(&value, 0, sizeof(value));
             }
 
-            else if (rhs.m_ucType == DType::Map)
-            {
-                m_value.map = new MapType(*(rhs.m_value.map));
-            }
-            else if (DType::Vector == rhs.m_ucType)
-            {
-                m_value.vec = new VecType(*rhs.m_value.vec);
-            }
-            else if (DType::String == rhs.m_ucType)
-            {
-                m_value.buf = new BufType((*rhs.m_value.buf));
-            }
-            m_ucType = rhs.m_ucType;
-            m_ucSubType = rhs.m_ucSubType;
-            m_bHasData = rhs.m_bHasData;
-            m_bInit = rhs.m_bInit;
+            clear();
+            m_value = value;
+            m_ucType = ucType;
+            m_ucSubType = ucSubType;
+            m_bHasData = bHasData;
         }
 
     private:
-- 
2.43.0


From 22143dfc8760b0d430bde5fc5f3f4e8e0d9e00d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:45 +0000
Subject: [PATCH 040/117] fix: CAnyValue: pop on an empty array does nothing,
 negative index is refused

---
 include/CAnyValue.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 6450de8..50c56c5 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -423,7 +423,7 @@ namespace lce
         {
             if ((DType::Vector == m_ucType) && NULL != m_value.vec)
             {
-                if (iIndex < (int)m_value.vec->size())
+                if (iIndex >= 0 && iIndex < (int)m_value.vec->size())
                     return (*m_value.vec)[iIndex];
                 else
                     throw Error("operator[inx]: index invalid");
@@ -435,7 +435,7 @@ namespace lce
         {
             if ((DType::Vector == m_ucType) && NULL != m_value.vec)
             {
-                if (iIndex < (int)m_value.vec->size())
+                if (iIndex >= 0 && iIndex < (int)m_value.vec->size())
                     return (*m_value.vec)[iIndex];
                 else
                     throw Error("operator[inx]: index invalid");
@@ -555,7 +555,8 @@ namespace lce
             if ((DType::Vector == m_ucType) && NULL != m_value.vec)
             {
                 m_bHasData = true;
-                m_value.vec->pop_back();
+                if (!m_value.vec->empty())
+                    m_value.vec->pop_back();
             }
         }
         void push_front(const CAnyValue &oValue)
@@ -573,7 +574,8 @@ namespace lce
             if ((DType::Vector == m_ucType) && NULL != m_value.vec)
             {
                 m_bHasData = true;
-                m_value.vec->pop_front();
+                if (!m_value.vec->empty())
+                    m_value.vec->pop_front();
             }
         }
 
-- 
2.43.0


From 5cdc51d1b057f25046e85ec4ca2294b8866ad549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:45 +0000
Subject: [PATCH 041/117] fix: CAnyValue decode and decodeJSON start from an
 empty value

---
 include/CAnyValue.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 50c56c5..41d1211 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -687,6 +687,7 @@ namespace lce
 
         void decodeJSON(const char *szBuf, const size_t iSize)
         {
+            this->clear();
             int dwPos = 0;
             skipSpaces(dwPos, szBuf, iSize);
 
@@ -1797,6 +1798,7 @@ namespace lce
                                                    &decode_sinteger1, &decode_sinteger2, &decode_sinteger4, &decode_sinteger8
 
             };
+            this->clear();
             check(dwDecodePos + 1, dwDataSize);
             m_ucSubType = *(pData + dwDecodePos);
             dwDecodePos++;
-- 
2.43.0


From 19b609fee001ff1dda5be7470ee45d3787e6df04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:45 +0000
Subject: [PATCH 042/117] fix: CAnyValue::decode refuses unknown types,
 impossible array sizes and a missing last map value

---
 include/CAnyValue.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 41d1211..fa4836c 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -1170,6 +1170,8 @@ namespace lce
             check(dwDecodePos + 4, dwDataSize);
             uint32_t dwSize = ntohl(*(uint32_t *)(pData + dwDecodePos));
             dwDecodePos += 4;
+            // every element takes at least one byte
+            check(dwDecodePos + dwSize, dwDataSize);
             thisobj.m_value.vec->resize(dwSize);
 
             for (uint32_t i = 0; i < dwSize; ++i)
@@ -1193,10 +1195,7 @@ namespace lce
                 check(dwDecodePos + ucNameLen, dwDataSize);
                 BufType sName(pData + dwDecodePos, ucNameLen);
                 dwDecodePos += ucNameLen;
-                if (dwDataSize > dwDecodePos)
-                {
-                    (*thisobj.m_value.map)[sName].decode(dwDecodePos, pData, dwDataSize);
-                }
+                (*thisobj.m_value.map)[sName].decode(dwDecodePos, pData, dwDataSize);
             }
         }
 
@@ -1807,6 +1806,10 @@ namespace lce
             {
                 arDecodeFunc[m_ucSubType](dwDecodePos, pData, dwDataSize, *this);
             }
+            else
+            {
+                throw Error("decode data error.");
+            }
         }
 
     public:
-- 
2.43.0


From e02ad777436e4aa85924f1d5c2a35452dcab9d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:45 +0000
Subject: [PATCH 043/117] fix: CAnyValue::decode: any non-zero boolean is true

---
 include/CAnyValue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index fa4836c..4832744 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -1070,7 +1070,7 @@ namespace lce
         {
             thisobj.m_ucType = DType::Bool;
             check(dwDecodePos + 1, dwDataSize);
-            thisobj.m_value.integer = (unsigned char)*(unsigned char *)(pData + dwDecodePos);
+            thisobj.m_value.integer = *(pData + dwDecodePos) != 0 ? 1 : 0;
             ++dwDecodePos;
         }
 
-- 
2.43.0


From 842eaf99746cae7a9f651df5022cd9b735c258d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:45 +0000
Subject: [PATCH 044/117] fix: CAnyValue::encode keeps positive values of
 signed type

---
 include/CAnyValue.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 4832744..e00a0d9 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -1696,18 +1696,18 @@ namespace lce
 
             int64_t iValue = (int64_t)value.integer;
 
-            if (iValue > -129)
+            if (iValue > -129 && iValue < 128)
             {
                 sBuf.push_back((char)DType::SInteger1);
                 sBuf.push_back((char)value.integer);
             }
-            else if (iValue > -32769)
+            else if (iValue > -32769 && iValue < 32768)
             {
                 sBuf.push_back((char)DType::SInteger2);
                 unsigned short wTmp = htons(static_cast<uint16_t>(value.integer));
                 sBuf.append(reinterpret_cast<char *>(&wTmp), sizeof(wTmp));
             }
-            else if (iValue > -2147483649)
+            else if (iValue > -2147483649 && iValue < 2147483648)
             {
                 sBuf.push_back((char)DType::SInteger4);
                 uint32_t dwTmp = htonl(static_cast<uint32_t>(value.integer));
-- 
2.43.0


From df97a3eaeac1c47c588f8e83b0e3fb0e3a59aa1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:45 +0000
Subject: [PATCH 045/117] fix: CAnyValue: room for 20-digit integers in JSON
 and XML text

---
 include/CAnyValue.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index e00a0d9..a5b8989 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -831,14 +831,14 @@ namespace lce
             break;
             case DType::Integer:
             {
-                char szData[20];
+                char szData[32];
                 snprintf(szData, sizeof(szData), "%llu", (long long unsigned)m_value.integer);
                 sBuf += szData;
             }
             break;
             case DType::SInteger:
             {
-                char szData[20];
+                char szData[32];
                 snprintf(szData, sizeof(szData), "%lld", (long long)m_value.integer);
                 sBuf += szData;
             }
@@ -984,14 +984,14 @@ namespace lce
             break;
             case DType::Integer:
             {
-                char szData[20];
+                char szData[32];
                 snprintf(szData, sizeof(szData), "%llu", (long long unsigned)m_value.integer);
                 sBuf += szData;
             }
             break;
             case DType::SInteger:
             {
-                char szData[20];
+                char szData[32];
                 snprintf(szData, sizeof(szData), "%lld", (long long)m_value.integer);
                 sBuf += szData;
             }
-- 
2.43.0


From 7f9996b432622b26d3be2e2e4f3fb8af89064a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:45 +0000
Subject: [PATCH 046/117] fix: CAnyValue JSON: escape NUL, keep a top-level
 string

---
 include/CAnyValue.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index a5b8989..fff6491 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -709,7 +709,7 @@ namespace lce
                 dwPos++;
 
                 this->initAsBuf();
-                this->m_value.buf->assign(sValue.data(), sValue.size(), true);
+                this->m_value.buf->assign(sValue.data(), sValue.size());
             }
             else if (szBuf[dwPos] == 't')
             {
@@ -959,7 +959,7 @@ namespace lce
 
         static inline bool isControlCharacter(char ch)
         {
-            return ch > 0 && ch <= 0x1F;
+            return ch >= 0 && ch <= 0x1F;
         }
 
     public:
-- 
2.43.0


From eb5136a47b66a4ace537af0a93fcb3e521dd36b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:45 +0000
Subject: [PATCH 047/117] fix: CAnyValue::encodeXML splits ]]> in texts

---
 include/CAnyValue.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index fff6491..75aad12 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -853,7 +853,15 @@ namespace lce
             case DType::String:
             {
                 sBuf += "<![CDATA[";
-                sBuf += (*m_value.buf);
+                // "]]>" would end the section: split it over two sections
+                std::string::size_type dwBegin = 0, dwEnd;
+                while ((dwEnd = m_value.buf->find("]]>", dwBegin)) != std::string::npos)
+                {
+                    sBuf.append(*m_value.buf, dwBegin, dwEnd + 2 - dwBegin);
+                    sBuf += "]]><![CDATA[";
+                    dwBegin = dwEnd + 2;
+                }
+                sBuf.append(*m_value.buf, dwBegin, std::string::npos);
                 sBuf += "]]>";
             }
             break;
-- 
2.43.0


From 82e9854c4337c2a325d9cb9cef789296bed97fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:36 +0000
Subject: [PATCH 048/117] fix: CAnyValue::decodeJSON does not read past the end
 of the text

---
 include/CAnyValue.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 75aad12..c446b6e 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -689,6 +689,9 @@ namespace lce
         {
             this->clear();
             int dwPos = 0;
+            // the reader looks one character ahead: give it a terminated copy
+            const std::string sText(szBuf, iSize);
+            szBuf = sText.c_str();
             skipSpaces(dwPos, szBuf, iSize);
 
             if (szBuf[dwPos] == '{')
-- 
2.43.0


From 1cadacc0036bfc034cc8362bfc467bcbc34c9c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:50 +0000
Subject: [PATCH 049/117] fix: CAnyValue::decodeJSON refuses arrays and objects
 that are not closed

---
 include/CAnyValue.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index c446b6e..774dee4 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -1410,7 +1410,7 @@ namespace lce
                 if (szBuf[dwPos] == ']')
                 {
                     dwPos++;
-                    break;
+                    return;
                 }
                 else if (szBuf[dwPos] == '{')
                 {
@@ -1503,7 +1503,7 @@ namespace lce
                 if (szBuf[dwPos] == ']')
                 {
                     dwPos++;
-                    break;
+                    return;
                 }
                 else if (szBuf[dwPos] == ',')
                 {
@@ -1517,6 +1517,7 @@ namespace lce
                     throw runtime_error(sOut.c_str());
                 }
             }
+            throw runtime_error("expect ']' before the end");
         }
 
         static void readObj(int &dwPos, CAnyValue &oValue, const char *szBuf, int iSize)
@@ -1529,7 +1530,7 @@ namespace lce
                 if (szBuf[dwPos] == '}')
                 {
                     dwPos++;
-                    break;
+                    return;
                 }
                 if (szBuf[dwPos] == '"')
                 {
@@ -1649,7 +1650,7 @@ namespace lce
                     if (szBuf[dwPos] == '}')
                     {
                         dwPos++;
-                        break;
+                        return;
                     }
                     else if (szBuf[dwPos] == ',')
                     {
@@ -1671,6 +1672,7 @@ namespace lce
                     throw runtime_error(sOut.c_str());
                 }
             }
+            throw runtime_error("expect '}' before the end");
         }
 
     private:
-- 
2.43.0


From f7dd9858512ccab80decb88196830d6be7b030f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:50 +0000
Subject: [PATCH 050/117] fix: CAnyValue::decodeJSON reads numbers with an
 exponent

---
 include/CAnyValue.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 774dee4..84fdaef 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -762,7 +762,7 @@ namespace lce
             {
                 string sValue;
                 readNumber(dwPos, sValue, szBuf, iSize);
-                if (sValue.find('.') != string::npos)
+                if (sValue.find_first_of(".eE") != string::npos)
                 {
                     double flValue = atof(sValue.c_str());
                     this->m_ucType = DType::Float;
@@ -1480,7 +1480,7 @@ namespace lce
                 {
                     string sValue;
                     readNumber(dwPos, sValue, szBuf, iSize);
-                    if (sValue.find('.') != string::npos)
+                    if (sValue.find_first_of(".eE") != string::npos)
                     {
                         double flValue = atof(sValue.c_str());
                         oValue.push_back(flValue);
@@ -1624,7 +1624,7 @@ namespace lce
                     {
                         string sValue;
                         readNumber(dwPos, sValue, szBuf, iSize);
-                        if (sValue.find('.') != string::npos)
+                        if (sValue.find_first_of(".eE") != string::npos)
                         {
                             double flValue = atof(sValue.c_str());
                             oValue[sKey] = flValue;
-- 
2.43.0


From 9ebc530f8d7b2a6fb076bcfc219d48eebc1b5ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:50 +0000
Subject: [PATCH 051/117] fix: CAnyValue::decodeJSON combines surrogate pairs

---
 include/CAnyValue.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 84fdaef..91465da 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -1355,6 +1355,18 @@ namespace lce
                     dwPos++;
                     uint32_t unicode = 0;
                     readUnicode(dwPos, szBuf, iSize, unicode);
+                    if (unicode >= 0xD800 && unicode <= 0xDBFF && szBuf[dwPos + 1] == '\\' && szBuf[dwPos + 2] == 'u')
+                    {
+                        // a surrogate pair is one character
+                        int dwLowPos = dwPos + 2;
+                        uint32_t low = 0;
+                        readUnicode(dwLowPos, szBuf, iSize, low);
+                        if (low >= 0xDC00 && low <= 0xDFFF)
+                        {
+                            unicode = 0x10000 + ((unicode - 0xD800) << 10) + (low - 0xDC00);
+                            dwPos = dwLowPos;
+                        }
+                    }
                     sValue.append(unicodeToUTF8(unicode));
                 }
                 else if (szBuf[dwPos] == '"')
-- 
2.43.0


From 9bf16adc8d8946ad18c9c0cee4915e03bd6e9cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:50 +0000
Subject: [PATCH 052/117] fix: CAnyValue::decodeJSON: the last of equal keys
 replaces the others

---
 include/CAnyValue.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 91465da..95a7644 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -1574,12 +1574,14 @@ namespace lce
                     {
                         dwPos++;
                         CAnyValue &objValue = oValue[sKey];
+                        objValue.clear();
                         readObj(dwPos, objValue, szBuf, iSize);
                     }
                     else if (szBuf[dwPos] == '[')
                     {
                         dwPos++;
                         CAnyValue &arrayValue = oValue[sKey];
+                        arrayValue.clear();
                         readArray(dwPos, arrayValue, szBuf, iSize);
                     }
                     else if (szBuf[dwPos] == 't')
@@ -1615,7 +1617,7 @@ namespace lce
 
                         if (sValue != "null")
                             throw runtime_error("not a null value");
-                        oValue[sKey];
+                        oValue[sKey].clear();
                         dwPos += 4;
                     }
                     else if (szBuf[dwPos] == 'f')
-- 
2.43.0


From 8d899db1a6b618ac7f615912e685ae8f76b33780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:50 +0000
Subject: [PATCH 053/117] fix: CAnyValue decoders bound the nesting depth

---
 include/CAnyValue.h | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 95a7644..9a5b88c 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -905,6 +905,31 @@ namespace lce
         static std::vector<DECODE_FUNC> m_vecDecodeFuncs;
 
     private:
+        // nesting that a sender may choose, kept within what the stack can take
+        class DepthGuard
+        {
+        public:
+            DepthGuard()
+            {
+                if (depth() >= 1000)
+                {
+                    throw Error("decode data error: nested too deeply.");
+                }
+                ++depth();
+            }
+            ~DepthGuard()
+            {
+                --depth();
+            }
+
+        private:
+            static int &depth()
+            {
+                static thread_local int iDepth = 0;
+                return iDepth;
+            }
+        };
+
         static void inline check(const size_t dwPos, const size_t sDataSize)
         {
             if (dwPos > sDataSize)
@@ -1414,6 +1439,7 @@ namespace lce
 
         static void readArray(int &dwPos, CAnyValue &oValue, const char *szBuf, int iSize)
         {
+            DepthGuard guard;
             oValue.initAsVector();
 
             while (dwPos < iSize)
@@ -1534,6 +1560,7 @@ namespace lce
 
         static void readObj(int &dwPos, CAnyValue &oValue, const char *szBuf, int iSize)
         {
+            DepthGuard guard;
             oValue.initAsMap();
 
             while (dwPos < iSize)
@@ -1824,6 +1851,7 @@ namespace lce
                                                    &decode_sinteger1, &decode_sinteger2, &decode_sinteger4, &decode_sinteger8
 
             };
+            DepthGuard guard;
             this->clear();
             check(dwDecodePos + 1, dwDataSize);
             m_ucSubType = *(pData + dwDecodePos);
-- 
2.43.0


From 9ef5461a8efa09166e1cccd27d768e582074a7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:50 +0000
Subject: [PATCH 054/117] fix: CAnyValue::encodeJSON writes a digit after the
 decimal point

---
 include/CAnyValue.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 9a5b88c..854767d 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -1037,6 +1037,8 @@ namespace lce
                 char buffer[32];
                 snprintf(buffer, sizeof(buffer), "%#.16g", m_value.flValue);
                 sBuf += buffer;
+                if (sBuf[sBuf.size() - 1] == '.') // JSON wants a digit after the point
+                    sBuf += "0";
             }
             break;
             case DType::String:
-- 
2.43.0


From 6605d3da2c7879f208d14d0345bae62ca06f4c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:04 +0000
Subject: [PATCH 055/117] fix: AnyHeader: convert the 64-bit uid and the 32-bit
 client IP with matching byte order functions

---
 include/CAnyPackage.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/CAnyPackage.h b/include/CAnyPackage.h
index 41587ba..962bf54 100644
--- a/include/CAnyPackage.h
+++ b/include/CAnyPackage.h
@@ -51,11 +51,11 @@ namespace lce
         void setFormat(uint32_t dwFormat) { this->dwFormat = htonl(dwFormat); }
         uint32_t getFormat() { return ntohl(dwFormat); }
 
-        void setUid(uint64_t ddwUid) { this->ddwUid = htonl(ddwUid); }
-        uint64_t getUid() { return ntohl(ddwUid); }
+        void setUid(uint64_t ddwUid) { this->ddwUid = htonll(ddwUid); }
+        uint64_t getUid() { return ntohll(ddwUid); }
 
-        void setClientIp(uint32_t dwClientIp) { this->dwClientIp = htonll(dwClientIp); }
-        uint32_t getClientIp() { return ntohll(dwClientIp); }
+        void setClientIp(uint32_t dwClientIp) { this->dwClientIp = htonl(dwClientIp); }
+        uint32_t getClientIp() { return ntohl(dwClientIp); }
 
         void setErrno(uint32_t dwErrno) { this->dwErrno = htonl(dwErrno); }
         uint32_t getErrno() { return ntohl(dwErrno); }
-- 
2.43.0


From 0d95c640e1f8448b0538b714342e80c864f80e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:13 +0000
Subject: [PATCH 056/117] fix: CAnyValuePackage: the body is the package
 without its head

---
 include/CAnyValue.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 854767d..0fe71b0 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -2106,7 +2106,7 @@ namespace lce
                 return;
             }
             size_t dwPos = sizeof(PKG_HEAD);
-            m_oAnyValues.decode(pData + dwPos, dwDataSize);
+            m_oAnyValues.decode(pData + dwPos, dwDataSize - dwPos);
         }
 
         void decodeJSON(const unsigned char *pData, const size_t dwDataSize)
@@ -2129,7 +2129,7 @@ namespace lce
                 return;
             }
             size_t dwPos = sizeof(PKG_HEAD);
-            m_oAnyValues.decodeJSON(pData + dwPos, dwDataSize);
+            m_oAnyValues.decodeJSON(pData + dwPos, dwDataSize - dwPos);
         }
 
         const char *data()
-- 
2.43.0


From f33ca6a53dde31e918dce120d3a631633561d144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:29 +0000
Subject: [PATCH 057/117] fix: CPackage: assignment copies the right-hand side

---
 include/CPackage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/CPackage.h b/include/CPackage.h
index a1b8b5f..7025ca9 100644
--- a/include/CPackage.h
+++ b/include/CPackage.h
@@ -55,7 +55,7 @@ namespace lce
 		{
 			if (this != &rhs)
 			{
-				this->assign();
+				this->assign(rhs);
 			}
 
 			return *this;
-- 
2.43.0


From 309aaf11761c4d0fa731256c92056b44c737e9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:29 +0000
Subject: [PATCH 058/117] fix: CPackage: stream single characters without
 casting away const

---
 include/CPackage.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/CPackage.h b/include/CPackage.h
index 7025ca9..a692d0a 100644
--- a/include/CPackage.h
+++ b/include/CPackage.h
@@ -282,12 +282,12 @@ namespace lce
 
 		this_type &operator<<(const unsigned char ucVal)
 		{
-			m_pkgData.append(reinterpret_cast<char *>(&ucVal), sizeof(unsigned char));
+			m_pkgData.append(reinterpret_cast<const char *>(&ucVal), sizeof(unsigned char));
 			return *this;
 		}
 		this_type &operator<<(const char cVal)
 		{
-			m_pkgData.append(reinterpret_cast<char *>(&cVal), sizeof(char));
+			m_pkgData.append(reinterpret_cast<const char *>(&cVal), sizeof(char));
 			return *this;
 		}
 
-- 
2.43.0


From 400f460a0d1032c95ada8f6afa274d811bea1a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:51 +0000
Subject: [PATCH 059/117] fix: CPackage: refuse negative read lengths

---
 include/CPackage.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/CPackage.h b/include/CPackage.h
index a692d0a..ad3810c 100644
--- a/include/CPackage.h
+++ b/include/CPackage.h
@@ -540,7 +540,7 @@ namespace lce
 
 		void read(char *pszBuf, const int iReadLen)
 		{
-			if (iReadLen <= static_cast<int>(m_pkgData.size() - sizeof(PKG_HEAD) - m_iPos))
+			if (iReadLen >= 0 && iReadLen <= static_cast<int>(m_pkgData.size() - sizeof(PKG_HEAD) - m_iPos))
 			{
 				memcpy(pszBuf, m_pkgData.data() + sizeof(PKG_HEAD) + m_iPos, iReadLen);
 			}
@@ -553,7 +553,7 @@ namespace lce
 
 		void read(std::string &sBuf, const int iReadLen)
 		{
-			if (iReadLen <= static_cast<int>(m_pkgData.size() - sizeof(PKG_HEAD) - m_iPos))
+			if (iReadLen >= 0 && iReadLen <= static_cast<int>(m_pkgData.size() - sizeof(PKG_HEAD) - m_iPos))
 			{
 				sBuf.assign(m_pkgData.data() + sizeof(PKG_HEAD) + m_iPos, iReadLen);
 			}
-- 
2.43.0


From 72fef09ee7704ab51454bf553fdfd3d8c708aa3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:51 +0000
Subject: [PATCH 060/117] fix: CPackage: refuse data shorter than the head in
 every way of setting it

---
 include/CPackage.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/CPackage.h b/include/CPackage.h
index ad3810c..1ef59c6 100644
--- a/include/CPackage.h
+++ b/include/CPackage.h
@@ -37,6 +37,10 @@ namespace lce
 			{
 				throw Error("pszPkgData is null.");
 			}
+			else if (static_cast<int>(sizeof(PKG_HEAD)) > iLen)
+			{
+				throw Error("data len less than pkg head len.");
+			}
 			m_iPos = 0;
 			m_pkgData.erase();
 			m_pkgData.assign((char *)pszPkgData, iLen);
@@ -82,6 +86,10 @@ namespace lce
 
 		void setPkgData(const std::string sData)
 		{
+			if (sizeof(PKG_HEAD) > sData.size())
+			{
+				throw Error("data len less than pkg head len.");
+			}
 			m_iPos = 0;
 			m_pkgData = sData;
 		}
-- 
2.43.0


From b558abfaa60c08f6623d46ab55e32dde3512d511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:51 +0000
Subject: [PATCH 061/117] fix: CPackage: readString stops at the end of the
 package

---
 include/CPackage.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/CPackage.h b/include/CPackage.h
index 1ef59c6..6cb6dc6 100644
--- a/include/CPackage.h
+++ b/include/CPackage.h
@@ -575,9 +575,10 @@ namespace lce
 		void readString(std::string &sData)
 		{
 			const char *pData = m_pkgData.data() + sizeof(PKG_HEAD) + m_iPos;
-			int iStrLen = strlen(pData);
-			sData = pData;
-			m_iPos += iStrLen + 1;
+			const int iLeft = static_cast<int>(m_pkgData.size() - sizeof(PKG_HEAD)) - m_iPos;
+			int iStrLen = strnlen(pData, iLeft);
+			sData.assign(pData, iStrLen);
+			m_iPos += iStrLen < iLeft ? iStrLen + 1 : iStrLen;
 		}
 
 		void readString1(std::string &sData)
-- 
2.43.0


From 1ed2c58d63e1d0ba09eb7c2f689f51c4455a762e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:51 +0000
Subject: [PATCH 062/117] fix: CPackage: seek stays inside the body

---
 include/CPackage.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/CPackage.h b/include/CPackage.h
index 6cb6dc6..8904dd2 100644
--- a/include/CPackage.h
+++ b/include/CPackage.h
@@ -643,14 +643,14 @@ namespace lce
 				}
 				break;
 			case S_CUR:
-				if (static_cast<int>(m_pkgData.size() - sizeof(PKG_HEAD)) > iOffPos && m_iPos + iOffPos >= 0)
+				if (static_cast<long long>(m_iPos) + iOffPos >= 0 && static_cast<long long>(m_iPos) + iOffPos < static_cast<long long>(m_pkgData.size() - sizeof(PKG_HEAD)))
 				{
 					m_iPos += iOffPos;
 					bOk = true;
 				}
 				break;
 			case S_END:
-				if (iOffPos <= 0 && (int)m_pkgData.size() > abs(iOffPos))
+				if (iOffPos <= 0 && static_cast<long long>(m_pkgData.size() - sizeof(PKG_HEAD)) + iOffPos >= 0)
 				{
 
 					m_iPos = (int)m_pkgData.size() - sizeof(PKG_HEAD) + iOffPos;
-- 
2.43.0


From 4a84f22ee1caa71063a2833ed7afcf2f44cb9615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:51 +0000
Subject: [PATCH 063/117] fix: CPackage: a new body is read from its start

---
 include/CPackage.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/CPackage.h b/include/CPackage.h
index 8904dd2..77c7c31 100644
--- a/include/CPackage.h
+++ b/include/CPackage.h
@@ -678,10 +678,12 @@ namespace lce
 		// 设置包体
 		void setPkgBody(const unsigned char *pszBody, const int iBodyLen)
 		{
+			m_iPos = 0;
 			m_pkgData.replace(sizeof(PKG_HEAD), std::string::npos, reinterpret_cast<const char *>(pszBody), iBodyLen);
 		}
 		void setPkgBody(const char *pszBody, const int iBodyLen)
 		{
+			m_iPos = 0;
 			m_pkgData.replace(sizeof(PKG_HEAD), std::string::npos, pszBody, iBodyLen);
 		}
 
-- 
2.43.0


From 661df1b5c3418d1c39fabaa3d8aeb612bf21a9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:16 +0000
Subject: [PATCH 064/117] fix: FormUrlDecode: keep a % that is not followed by
 two hex digits

---
 src/Utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utils.cpp b/src/Utils.cpp
index c41b093..8a361eb 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -530,7 +530,7 @@ namespace lce
             {
                 sResult += ' ';
             }
-            else if (ch == '%')
+            else if (ch == '%' && j + 2 < iLen && isxdigit(static_cast<unsigned char>(sSrc[j + 1])) && isxdigit(static_cast<unsigned char>(sSrc[j + 2])))
             {
                 char szTmpStr[] = "0x000";
                 int iChNum;
-- 
2.43.0


From 606924a415bab512eeefdcd9a2d54bd1962d8f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:16 +0000
Subject: [PATCH 065/117] fix: Gmt2Time: stop at the end of the text

---
 src/Utils.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Utils.cpp b/src/Utils.cpp
index 8a361eb..84b9315 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -340,6 +340,8 @@ namespace lce
             GC;
         if (day == -1)
         {
+            if (!isdigit(c))
+                return BAD;
             day = c - '0';
             if (isdigit(GC))
             {
@@ -349,6 +351,8 @@ namespace lce
         }
         else
         {
+            if (!isdigit(c))
+                return BAD;
             year = c - '0';
             if (isdigit(GC))
             {
-- 
2.43.0


From 8428f4d2fd88cd0a0c0498b71e603f42fe359f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:16 +0000
Subject: [PATCH 066/117] fix: Gmt2Time: dates from 2038 on do not overflow

---
 src/Utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utils.cpp b/src/Utils.cpp
index 84b9315..de172e1 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -431,7 +431,7 @@ namespace lce
         if (month > 10)
             year--;
         year = year * 365 + year / 4 + month * 520 / 17 + day;
-        return year * 86400 + sec - 60652800;
+        return static_cast<time_t>(year) * 86400 + sec - 60652800;
     }
 
     std::string FormUrlEncode(const std::string &sSrc)
-- 
2.43.0


From fb751e95034319288071d4a56b1efb7e0139b02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:43 +0000
Subject: [PATCH 067/117] fix: CConfig: skip leading blanks

---
 src/CConfig.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/CConfig.cpp b/src/CConfig.cpp
index 93ff6cf..da2b3ee 100644
--- a/src/CConfig.cpp
+++ b/src/CConfig.cpp
@@ -37,12 +37,17 @@ namespace lce
 			size_t i = 0;
 			for (i = 0; i < sLine.size(); i++)
 			{
-				if (sLine[i] != ' ' || sLine[i] != '\t')
+				if (sLine[i] != ' ' && sLine[i] != '\t')
 				{
 					break;
 				}
 			}
 
+			if (i == sLine.size())
+			{
+				continue;
+			}
+
 			switch (sLine[i])
 			{
 			case '#':
-- 
2.43.0


From 28eb4e3b7431303ca3d57935ea9557b7048a9360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:43 +0000
Subject: [PATCH 068/117] fix: CConfig: lines without '=' and section lines set
 nothing

---
 src/CConfig.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/CConfig.cpp b/src/CConfig.cpp
index da2b3ee..98b0d2c 100644
--- a/src/CConfig.cpp
+++ b/src/CConfig.cpp
@@ -65,14 +65,11 @@ namespace lce
 						break;
 					}
 				}
-				else
-				{
-					break;
-				}
+				break;
 			}
 			default:
 				size_t j = sLine.find('=', i);
-				if (j > i)
+				if (std::string::npos != j && j > i)
 				{
 					sName = sLine.substr(i, j - i);
 
-- 
2.43.0


From 4804fcadaf43ec48231336e830be3558f0bed898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:43 +0000
Subject: [PATCH 069/117] fix: SplitStr: skip the whole separator

---
 include/StringHelper.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/StringHelper.h b/include/StringHelper.h
index e340b72..00b5422 100644
--- a/include/StringHelper.h
+++ b/include/StringHelper.h
@@ -50,10 +50,10 @@ namespace lce
 		size_t start = 0;
 		size_t end = 0;
 
-		while ((end = str.find(separator, start)) != string::npos)
+		while (!separator.empty() && (end = str.find(separator, start)) != string::npos)
 		{
 			result.push_back(str.substr(start, end - start));
-			start = end + 1;
+			start = end + separator.size();
 		}
 
 		result.push_back(str.substr(start));
-- 
2.43.0


From 356a2d4069376d3595f6055903a724fd0b99c06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:43 +0000
Subject: [PATCH 070/117] fix: ReplaceStr: nothing to find replaces nothing

---
 include/StringHelper.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/StringHelper.h b/include/StringHelper.h
index 00b5422..b414859 100644
--- a/include/StringHelper.h
+++ b/include/StringHelper.h
@@ -26,6 +26,9 @@ namespace lce
 		string::size_type dwLen1 = sFind.size();
 		string::size_type dwLen2 = sReplace.size();
 
+		if (sFind.empty())
+			return;
+
 		while ((pos = str.find(sFind, pos)) != string::npos)
 		{
 			str.replace(pos, dwLen1, sReplace);
-- 
2.43.0


From 3b6a32af74c35a8af6bcf99b944307e462d444af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:12 +0000
Subject: [PATCH 071/117] fix: CHttpWriter: a new object is an empty 200
 response

---
 include/CHttpWriter.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/CHttpWriter.h b/include/CHttpWriter.h
index f7d1b95..647e556 100755
--- a/include/CHttpWriter.h
+++ b/include/CHttpWriter.h
@@ -47,8 +47,7 @@ namespace lce
 	public:
 		CHttpWriter(void)
 		{
-			m_dwSetBodyLen = 0;
-			m_dwLastModified = 0;
+			begin();
 		}
 		~CHttpWriter(void)
 		{
-- 
2.43.0


From a36385efc8157146e3c6ebbf072e8eb9bbdaf009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:12 +0000
Subject: [PATCH 072/117] fix: CHttpWriter: begin() drops the headers of the
 previous response

---
 src/CHttpWriter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CHttpWriter.cpp b/src/CHttpWriter.cpp
index 1e06edd..fb315cc 100755
--- a/src/CHttpWriter.cpp
+++ b/src/CHttpWriter.cpp
@@ -106,6 +106,7 @@ namespace lce
 	void CHttpWriter::begin()
 	{
 		m_mapCookie.clear();
+		m_mapHead.clear();
 		m_sBodyContent.erase();
 		m_iStatusCode = 200;
 		m_sConnection = "Close";
-- 
2.43.0


From 8cd9a76f11b2a53bd6d1aad90096c29f7b6c209a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:12 +0000
Subject: [PATCH 073/117] fix: CHttpWriter: write headers of any length

---
 src/CHttpWriter.cpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/CHttpWriter.cpp b/src/CHttpWriter.cpp
index fb315cc..9742df5 100755
--- a/src/CHttpWriter.cpp
+++ b/src/CHttpWriter.cpp
@@ -27,8 +27,7 @@ namespace lce
 		snprintf(szTmp, sizeof(szTmp), "HTTP/1.1 %d %s\r\n", m_iStatusCode, getStatusCodeDesc(m_iStatusCode));
 		m_sSendData = szTmp;
 
-		snprintf(szTmp, sizeof(szTmp), "Connection: %s\r\n", m_sConnection.c_str());
-		m_sSendData += szTmp;
+		m_sSendData += "Connection: " + m_sConnection + "\r\n";
 
 		// Date: Wed, 22 Mar 2006 07:47:52 GMT\r\n
 		snprintf(szTmp, sizeof(szTmp), "Date: %s\r\n", GetGMTDate(time(NULL)).c_str());
@@ -48,14 +47,12 @@ namespace lce
 
 		if (!m_sCacheControl.empty())
 		{
-			snprintf(szTmp, sizeof(szTmp), "Cache-Control: %s\r\n", m_sCacheControl.c_str());
-			m_sSendData += szTmp;
+			m_sSendData += "Cache-Control: " + m_sCacheControl + "\r\n";
 		}
 
 		if (!m_sETag.empty())
 		{
-			snprintf(szTmp, sizeof(szTmp), "ETag: %s\r\n", m_sETag.c_str());
-			m_sSendData += szTmp;
+			m_sSendData += "ETag: " + m_sETag + "\r\n";
 		}
 
 		// length
@@ -75,8 +72,7 @@ namespace lce
 
 		for (MAP_HEAD::const_iterator it = m_mapHead.begin(); it != m_mapHead.end(); ++it)
 		{
-			snprintf(szTmp, sizeof(szTmp), "%s: %s\r\n", it->first.c_str(), it->second.c_str());
-			m_sSendData += szTmp;
+			m_sSendData += it->first + ": " + it->second + "\r\n";
 		}
 
 		// set cookie
@@ -98,8 +94,7 @@ namespace lce
 		}
 
 		// html head end
-		snprintf(szTmp, sizeof(szTmp), "Content-Type: %s\r\n\r\n", m_sContentType.c_str());
-		m_sSendData += szTmp;
+		m_sSendData += "Content-Type: " + m_sContentType + "\r\n\r\n";
 		m_sSendData += m_sBodyContent;
 	}
 
-- 
2.43.0


From 59dccfeea0b27f7fdd9e2f2e9ba32f23bc7220ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:12 +0000
Subject: [PATCH 074/117] fix: CHttpWriter: state the length of an empty body

---
 src/CHttpWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CHttpWriter.cpp b/src/CHttpWriter.cpp
index 9742df5..1bbdf8b 100755
--- a/src/CHttpWriter.cpp
+++ b/src/CHttpWriter.cpp
@@ -63,7 +63,7 @@ namespace lce
 		}
 		else
 		{
-			if (!m_sBodyContent.empty())
+			if (!m_sBodyContent.empty() || (m_iStatusCode >= 200 && m_iStatusCode != 204 && m_iStatusCode != 304))
 			{
 				snprintf(szTmp, sizeof(szTmp), "Content-Length: %d\r\n", (uint32_t)m_sBodyContent.size());
 				m_sSendData += szTmp;
-- 
2.43.0


From 80816820eb9e51fd37cf29ec11e85f381bac26ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:40 +0000
Subject: [PATCH 075/117] fix: CHttpReader: accept headers without a blank
 after the colon

---
 src/CHttpReader.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/CHttpReader.cpp b/src/CHttpReader.cpp
index b2a3235..f3a50cd 100755
--- a/src/CHttpReader.cpp
+++ b/src/CHttpReader.cpp
@@ -129,7 +129,10 @@ namespace lce
 			sLine = m_sHttpContent.substr(pos1, pos2 - pos1);
 			pos1 = pos2 + 2;
 
-			colonPos = sLine.find(": ");
+			colonPos = sLine.find(':');
+			if (colonPos == string::npos)
+				continue;
+
 			sName = sLine.substr(0, colonPos);
 			if (sName.empty())
 			{
@@ -137,7 +140,8 @@ namespace lce
 				return false;
 			}
 
-			sValue = sLine.substr(colonPos + 2);
+			sValue = sLine.substr(colonPos + 1);
+			sValue.erase(0, sValue.find_first_not_of(" \t"));
 
 			static const string BOUNDARY_STR("multipart/form-data; boundary=");
 			if (sBoundary.empty() && sName == "Content-Type" && sValue.substr(0, BOUNDARY_STR.length()) == BOUNDARY_STR)
-- 
2.43.0


From 538e7e5b0e05bcc028732430bcc5e9707dcb11dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:40 +0000
Subject: [PATCH 076/117] fix: CHttpReader: the request line ends with its line

---
 src/CHttpReader.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/CHttpReader.cpp b/src/CHttpReader.cpp
index f3a50cd..774b424 100755
--- a/src/CHttpReader.cpp
+++ b/src/CHttpReader.cpp
@@ -30,9 +30,16 @@ namespace lce
 
 		string::size_type headEndPos = m_sHttpContent.find("\r\n\r\n");
 
+		const string::size_type lineEndPos = m_sHttpContent.find("\r\n");
+		if (lineEndPos == string::npos)
+		{
+			snprintf(m_szErrMsg, sizeof(m_szErrMsg), "parse http request line error: can't find <\\r\\n>.");
+			return false;
+		}
+
 		// http command
 		pos2 = m_sHttpContent.find(' ', pos1);
-		if (pos2 != string::npos)
+		if (pos2 < lineEndPos)
 		{
 			sValue = m_sHttpContent.substr(0, pos2);
 			if (sValue == "GET")
@@ -62,7 +69,7 @@ namespace lce
 		// uri
 		pos1 = pos2 + 1;
 		pos2 = m_sHttpContent.find(' ', pos1);
-		if (string::npos != pos2)
+		if (pos2 < lineEndPos)
 		{
 			m_sURI = m_sHttpContent.substr(pos1, pos2 - pos1);
 			if (m_sURI.empty())
@@ -99,8 +106,8 @@ namespace lce
 
 		// version
 		pos1 = pos2 + 1;
-		pos2 = m_sHttpContent.find("\r\n", pos1);
-		if (pos2 != string::npos)
+		pos2 = lineEndPos;
+		if (pos1 <= pos2)
 		{
 			m_sVersion = m_sHttpContent.substr(pos1, pos2 - pos1);
 			if (m_sVersion.empty())
-- 
2.43.0


From 42b5ca5d5f38d0d9b00b4d451edd89a73d8000af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:40 +0000
Subject: [PATCH 077/117] fix: CHttpReader: a request without header end has no
 body

---
 src/CHttpReader.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/CHttpReader.cpp b/src/CHttpReader.cpp
index 774b424..53c331a 100755
--- a/src/CHttpReader.cpp
+++ b/src/CHttpReader.cpp
@@ -95,7 +95,8 @@ namespace lce
 					m_sURI.erase(tmpPos);
 				}
 
-				m_sValues = m_sHttpContent.substr(headEndPos + 4);
+				if (headEndPos != string::npos)
+					m_sValues = m_sHttpContent.substr(headEndPos + 4);
 			}
 		}
 		else
@@ -164,7 +165,7 @@ namespace lce
 		this->parseCookies();
 		this->parseValues();
 
-		if (m_nCommand == POST && !sBoundary.empty())
+		if (m_nCommand == POST && !sBoundary.empty() && headEndPos != string::npos)
 		{
 			sBoundary.insert(0, "--");
 			this->parsePostFormData(sBoundary, headEndPos);
-- 
2.43.0


From 8b439e1017110c221900c898bc8812f57a808d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:40 +0000
Subject: [PATCH 078/117] fix: CHttpReader: keep the multipart Content-Type,
 recognise it in any case

---
 src/CHttpReader.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/CHttpReader.cpp b/src/CHttpReader.cpp
index 53c331a..2acbe29 100755
--- a/src/CHttpReader.cpp
+++ b/src/CHttpReader.cpp
@@ -152,14 +152,12 @@ namespace lce
 			sValue.erase(0, sValue.find_first_not_of(" \t"));
 
 			static const string BOUNDARY_STR("multipart/form-data; boundary=");
-			if (sBoundary.empty() && sName == "Content-Type" && sValue.substr(0, BOUNDARY_STR.length()) == BOUNDARY_STR)
+			if (sBoundary.empty() && toLower(sName.c_str()) == "content-type" && sValue.substr(0, BOUNDARY_STR.length()) == BOUNDARY_STR)
 			{
 				sBoundary = sValue.substr(BOUNDARY_STR.length());
 			}
-			else
-			{
-				m_mapHeadInfo[toLower(sName.c_str())] = sValue;
-			}
+
+			m_mapHeadInfo[toLower(sName.c_str())] = sValue;
 		}
 
 		this->parseCookies();
-- 
2.43.0


From c5d8df0f3febe3331686111e159b5e8f62abba0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:04 +0000
Subject: [PATCH 079/117] fix: CHttpReader: a multipart body is not a list of
 name=value pairs

---
 src/CHttpReader.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/CHttpReader.cpp b/src/CHttpReader.cpp
index 2acbe29..0e8a3d5 100755
--- a/src/CHttpReader.cpp
+++ b/src/CHttpReader.cpp
@@ -161,7 +161,10 @@ namespace lce
 		}
 
 		this->parseCookies();
-		this->parseValues();
+		if (m_nCommand != POST || sBoundary.empty())
+		{
+			this->parseValues();
+		}
 
 		if (m_nCommand == POST && !sBoundary.empty() && headEndPos != string::npos)
 		{
-- 
2.43.0


From a5692c92b8dee2a2d6cb66fce910c86261357389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:04 +0000
Subject: [PATCH 080/117] fix: CHttpReader: a part shorter than its line end
 does not throw

---
 src/CHttpReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CHttpReader.cpp b/src/CHttpReader.cpp
index 0e8a3d5..c9b9694 100755
--- a/src/CHttpReader.cpp
+++ b/src/CHttpReader.cpp
@@ -430,7 +430,7 @@ namespace lce
 			pos1 = pos + sNV.size();
 
 			static const string FORM_DATA("Content-Disposition: form-data; ");
-			if (sNV.substr(2, FORM_DATA.size()) != FORM_DATA)
+			if (sNV.size() < 2 || sNV.substr(2, FORM_DATA.size()) != FORM_DATA)
 			{
 				break;
 			}
-- 
2.43.0


From 0a7ecbf3474a59f3d0c402ba2c71d724174245d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:04 +0000
Subject: [PATCH 081/117] fix: CHttpReader: form-data values are taken as they
 are

---
 src/CHttpReader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CHttpReader.cpp b/src/CHttpReader.cpp
index c9b9694..6f8067d 100755
--- a/src/CHttpReader.cpp
+++ b/src/CHttpReader.cpp
@@ -447,11 +447,11 @@ namespace lce
 				break;
 			}
 			sValue = sNV.substr(pos + 4);
-			if (sValue.size() > 2)
+			if (sValue.size() >= 2)
 			{
 				sValue.erase(sValue.size() - 2);
 			}
-			m_mapValueList[sName] = FormUrlDecode(sValue);
+			m_mapValueList[sName] = sValue;
 			m_sFileName = getStrBetween(sNV, 0, "filename=\"", "\"", pos);
 			if (pos == string::npos || m_sFileName.empty())
 			{
-- 
2.43.0


From d6618217a80ad13271e8dd75233643c2389a9a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:04 +0000
Subject: [PATCH 082/117] fix: CHttpReader: look for a part's name, file name
 and type in its head only

---
 src/CHttpReader.cpp | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/CHttpReader.cpp b/src/CHttpReader.cpp
index 6f8067d..ae46329 100755
--- a/src/CHttpReader.cpp
+++ b/src/CHttpReader.cpp
@@ -435,30 +435,32 @@ namespace lce
 				break;
 			}
 
-			sName = getStrBetween(sNV, 2, "name=\"", "\"", pos);
-			if (pos == string::npos || sName.empty())
+			const string::size_type bodyPos = sNV.find("\r\n\r\n");
+			if (bodyPos == string::npos)
 			{
 				break;
 			}
+			const string sPartHead = sNV.substr(0, bodyPos + 2);
 
-			pos = sNV.find("\r\n\r\n", pos + 1);
-			if (pos == string::npos)
+			sName = getStrBetween(sPartHead, 2, "name=\"", "\"", pos);
+			if (pos == string::npos || sName.empty())
 			{
 				break;
 			}
-			sValue = sNV.substr(pos + 4);
+
+			sValue = sNV.substr(bodyPos + 4);
 			if (sValue.size() >= 2)
 			{
 				sValue.erase(sValue.size() - 2);
 			}
 			m_mapValueList[sName] = sValue;
-			m_sFileName = getStrBetween(sNV, 0, "filename=\"", "\"", pos);
+			m_sFileName = getStrBetween(sPartHead, 0, "filename=\"", "\"", pos);
 			if (pos == string::npos || m_sFileName.empty())
 			{
 				continue;
 			}
 
-			string sFileType = getStrBetween(sNV, pos, "Content-Type: ", "\r\n", pos);
+			string sFileType = getStrBetween(sPartHead, pos, "Content-Type: ", "\r\n", pos);
 			if (pos == string::npos || sFileType.empty())
 			{
 				continue;
@@ -468,12 +470,7 @@ namespace lce
 
 			MAP_FILE::iterator it = m_mapFiles.find(sName);
 
-			it->second.sData = sNV.substr(pos + sFileType.size() + 4);
-
-			if (it->second.sData.size() > 2)
-			{
-				it->second.sData.erase(it->second.sData.size() - 2);
-			}
+			it->second.sData = sValue;
 
 			it->second.sContentType = sFileType;
 			it->second.sName = m_sFileName;
-- 
2.43.0


From 6fa334819a7cfb78185646f2d37027165f7e78cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:04 +0000
Subject: [PATCH 083/117] fix: CHttpReader: a new request drops the files of
 the previous one

---
 src/CHttpReader.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CHttpReader.cpp b/src/CHttpReader.cpp
index ae46329..6d4f0d0 100755
--- a/src/CHttpReader.cpp
+++ b/src/CHttpReader.cpp
@@ -184,6 +184,7 @@ namespace lce
 		m_sCookies.erase();
 		m_sValues.erase();
 		m_mapHeadInfo.clear();
+		m_mapFiles.clear();
 		m_sFile.clear();
 		m_sFileName.clear();
 	}
-- 
2.43.0


From 8d27fe0b6a2706dd22850e50d448497878dee99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:04 +0000
Subject: [PATCH 084/117] fix: CHttpReader: the command of a new object is
 defined

---
 src/CHttpReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CHttpReader.cpp b/src/CHttpReader.cpp
index 6d4f0d0..118df5b 100755
--- a/src/CHttpReader.cpp
+++ b/src/CHttpReader.cpp
@@ -7,7 +7,7 @@ namespace lce
 
 	std::string CHttpReader::m_sNull = "";
 
-	CHttpReader::CHttpReader(void)
+	CHttpReader::CHttpReader(void) : m_nCommand(GET)
 	{
 		memset(m_szNULL, 0, sizeof(m_szNULL));
 		memset(m_szErrMsg, 0, sizeof(m_szErrMsg));
-- 
2.43.0


From 61d00c256436806b77b7efa27489e3bee7114205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:12 +0000
Subject: [PATCH 085/117] fix: CAsyncLog: stop the thread and write what is
 buffered before destruction

---
 include/CAsyncLog.h |  2 ++
 src/CAsyncLog.cpp   | 27 +++++++++++++++++++++++++++
 2 files changed, 29 insertions(+)

diff --git a/include/CAsyncLog.h b/include/CAsyncLog.h
index 3c7ad8c..ba12154 100644
--- a/include/CAsyncLog.h
+++ b/include/CAsyncLog.h
@@ -23,6 +23,7 @@ namespace lce
 	{
 
 	public:
+		CAsyncLog(void);
 		~CAsyncLog(void);
 
 		bool init(const std::string &sLogFilePath = "", int iLogSecs = 1, const unsigned long dwLogFileMaxSize = 1024 * 1024 * 10, const unsigned int uiLogFileNum = 5, const bool bShowCmd = false, const unsigned long dwBufSize = 1024 * 1024);
@@ -80,6 +81,7 @@ namespace lce
 		CLogBuffer *m_poWriteBuffer1;
 		CLogBuffer *m_poWriteBuffer2;
 		CLogBuffer *m_poCurWirteBuffer;
+		bool m_bExit;
 		volatile int m_iCurWriteBufferFlag;
 
 		std::string m_sCurDate;
diff --git a/src/CAsyncLog.cpp b/src/CAsyncLog.cpp
index 413b4ec..3657a34 100644
--- a/src/CAsyncLog.cpp
+++ b/src/CAsyncLog.cpp
@@ -3,8 +3,27 @@
 namespace lce
 {
 
+	CAsyncLog::CAsyncLog()
+	{
+		m_poWriteBuffer1 = NULL;
+		m_poWriteBuffer2 = NULL;
+		m_poCurWirteBuffer = NULL;
+		m_bExit = false;
+	}
+
 	CAsyncLog::~CAsyncLog()
 	{
+		if (m_poWriteBuffer1 != NULL)
+		{
+			m_mutex.lock();
+			m_bExit = true;
+			m_mutex.unlock();
+
+			join();
+			flush();
+			flush();
+		}
+
 		if (m_ofsOutFile.is_open())
 		{
 			m_ofsOutFile.close();
@@ -166,6 +185,14 @@ namespace lce
 		{
 			usleep(100000);
 
+			m_mutex.lock();
+			bool bExit = m_bExit;
+			m_mutex.unlock();
+			if (bExit)
+			{
+				break;
+			}
+
 			if ((iMillSecs >= m_iLogSecs * 1000 && m_poCurWirteBuffer->size() > 0) || m_poCurWirteBuffer->full())
 			{
 				flush();
-- 
2.43.0


From c7f768fb8c1c17ac49c7cd8338e2f90db7f34a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:14 +0000
Subject: [PATCH 086/117] fix: CAsyncLog: lines are written once, whole and in
 order

---
 include/CAsyncLog.h |  3 +-
 src/CAsyncLog.cpp   | 85 +++++++++++++++++++++++++--------------------
 2 files changed, 50 insertions(+), 38 deletions(-)

diff --git a/include/CAsyncLog.h b/include/CAsyncLog.h
index ba12154..8b7f4d3 100644
--- a/include/CAsyncLog.h
+++ b/include/CAsyncLog.h
@@ -74,6 +74,7 @@ namespace lce
 		bool writeFile(const char *data, size_t size, const bool bEnd = true);
 
 		bool writeBuffer(const std::string &str, const bool bEnd = true);
+		void flushSpareBuffer();
 
 	private:
 		char m_szErrMsg[1024];
@@ -82,7 +83,6 @@ namespace lce
 		CLogBuffer *m_poWriteBuffer2;
 		CLogBuffer *m_poCurWirteBuffer;
 		bool m_bExit;
-		volatile int m_iCurWriteBufferFlag;
 
 		std::string m_sCurDate;
 
@@ -94,6 +94,7 @@ namespace lce
 		unsigned int m_uiLogFileNum;
 		bool m_bShowCmd;
 		lce::CMutex m_mutex;
+		lce::CMutex m_flushMutex;
 	};
 
 };
diff --git a/src/CAsyncLog.cpp b/src/CAsyncLog.cpp
index 3657a34..d89dc6c 100644
--- a/src/CAsyncLog.cpp
+++ b/src/CAsyncLog.cpp
@@ -21,7 +21,6 @@ namespace lce
 
 			join();
 			flush();
-			flush();
 		}
 
 		if (m_ofsOutFile.is_open())
@@ -52,7 +51,6 @@ namespace lce
 		m_poWriteBuffer2->init(dwBufSize);
 		m_poCurWirteBuffer = m_poWriteBuffer1;
 		m_iLogSecs = iLogSecs;
-		m_iCurWriteBufferFlag = 1;
 
 		start();
 
@@ -185,15 +183,18 @@ namespace lce
 		{
 			usleep(100000);
 
-			m_mutex.lock();
-			bool bExit = m_bExit;
-			m_mutex.unlock();
-			if (bExit)
+			bool bFlush = false;
 			{
-				break;
+				CAutoLock oLock(m_mutex);
+				if (m_bExit)
+				{
+					break;
+				}
+
+				bFlush = m_poWriteBuffer1->full() || m_poWriteBuffer2->full() || (iMillSecs >= m_iLogSecs * 1000 && (!m_poWriteBuffer1->empty() || !m_poWriteBuffer2->empty()));
 			}
 
-			if ((iMillSecs >= m_iLogSecs * 1000 && m_poCurWirteBuffer->size() > 0) || m_poCurWirteBuffer->full())
+			if (bFlush)
 			{
 				flush();
 				iMillSecs = 0;
@@ -205,25 +206,44 @@ namespace lce
 
 	void CAsyncLog::flush()
 	{
-		if (m_iCurWriteBufferFlag == 1)
+		CAutoLock oFlushLock(m_flushMutex);
+
+		// the buffer not written to at present, if not empty, holds the older lines
+		flushSpareBuffer();
 		{
-			m_mutex.lock();
-			m_poCurWirteBuffer = m_poWriteBuffer2;
-			m_mutex.unlock();
+			CAutoLock oLock(m_mutex);
+			CLogBuffer *pSpareBuffer = m_poCurWirteBuffer == m_poWriteBuffer1 ? m_poWriteBuffer2 : m_poWriteBuffer1;
+			if (!pSpareBuffer->empty())
+			{
+				return;
+			}
+			m_poCurWirteBuffer = pSpareBuffer;
+		}
+		flushSpareBuffer();
+	}
 
-			writeFile(m_poWriteBuffer1->data(), m_poWriteBuffer1->size(), false);
-			m_poWriteBuffer1->reset();
-			m_iCurWriteBufferFlag = 2;
+	// writers switch to the spare buffer only while it is empty, so a buffer
+	// being written to the file does not change
+	void CAsyncLog::flushSpareBuffer()
+	{
+		CLogBuffer *pBuffer = NULL;
+		{
+			CAutoLock oLock(m_mutex);
+			pBuffer = m_poCurWirteBuffer == m_poWriteBuffer1 ? m_poWriteBuffer2 : m_poWriteBuffer1;
+			if (pBuffer->empty())
+			{
+				pBuffer->reset();
+				return;
+			}
 		}
-		else if (m_iCurWriteBufferFlag == 2)
+
+		if (!writeFile(pBuffer->data(), pBuffer->size(), false))
 		{
-			m_mutex.lock();
-			m_poCurWirteBuffer = m_poWriteBuffer1;
-			m_mutex.unlock();
-			writeFile(m_poWriteBuffer2->data(), m_poWriteBuffer2->size(), false);
-			m_poWriteBuffer2->reset();
-			m_iCurWriteBufferFlag = 1;
+			return;
 		}
+
+		CAutoLock oLock(m_mutex);
+		pBuffer->reset();
 	}
 
 	bool CAsyncLog::writeBuffer(const std::string &str, const bool bEnd)
@@ -236,29 +256,20 @@ namespace lce
 			std::cout << str << std::endl;
 		}
 
-		CLogBuffer *pWriteBuffer = m_poCurWirteBuffer;
+		const std::string sLine = bEnd ? str + "\n" : str;
 
-		bool bFlag = pWriteBuffer->write(str.data(), str.size());
+		bool bFlag = m_poCurWirteBuffer->write(sLine.data(), sLine.size());
 
 		if (!bFlag)
 		{
-			if (m_poCurWirteBuffer == m_poWriteBuffer1)
-			{
-				bFlag = m_poWriteBuffer2->write(str.data(), str.size());
-				pWriteBuffer = m_poWriteBuffer2;
-			}
-			else if (m_poCurWirteBuffer == m_poWriteBuffer2)
+			CLogBuffer *pSpareBuffer = m_poCurWirteBuffer == m_poWriteBuffer1 ? m_poWriteBuffer2 : m_poWriteBuffer1;
+			if (pSpareBuffer->empty() && pSpareBuffer->write(sLine.data(), sLine.size()))
 			{
-				bFlag = m_poWriteBuffer1->write(str.data(), str.size());
-				pWriteBuffer = m_poWriteBuffer1;
+				m_poCurWirteBuffer = pSpareBuffer;
+				bFlag = true;
 			}
 		}
 
-		if (bEnd && bFlag)
-		{
-			pWriteBuffer->write("\n", 1);
-		}
-
 		if (!bFlag)
 		{
 			snprintf(m_szErrMsg, sizeof(m_szErrMsg), "buffer is full");
-- 
2.43.0


From db86617ce9f463c36b3aa9337e90256c845c1f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:14 +0000
Subject: [PATCH 087/117] fix: CAsyncLog: time stamps do not share a static
 buffer

---
 include/CAsyncLog.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/CAsyncLog.h b/include/CAsyncLog.h
index 8b7f4d3..9c156a0 100644
--- a/include/CAsyncLog.h
+++ b/include/CAsyncLog.h
@@ -53,7 +53,7 @@ namespace lce
 			time_t iCurTime;
 			time(&iCurTime);
 			struct tm curr;
-			curr = *localtime(&iCurTime);
+			localtime_r(&iCurTime, &curr);
 			char szDate[50];
 			snprintf(szDate, sizeof(szDate), "%04d-%02d-%02d %02d:%02d:%02d", curr.tm_year + 1900, curr.tm_mon + 1, curr.tm_mday, curr.tm_hour, curr.tm_min, curr.tm_sec);
 			return std::string(szDate);
@@ -64,7 +64,7 @@ namespace lce
 			time_t iCurTime;
 			time(&iCurTime);
 			struct tm curr;
-			curr = *localtime(&iCurTime);
+			localtime_r(&iCurTime, &curr);
 			char szDate[50];
 			snprintf(szDate, sizeof(szDate), "%04d-%02d-%02d", curr.tm_year + 1900, curr.tm_mon + 1, curr.tm_mday);
 			return std::string(szDate);
-- 
2.43.0


From f9acdec98e21a30ddc6d955eba016e5aace58e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:00 +0000
Subject: [PATCH 088/117] fix: CAsyncLog: a failed write keeps the lines and
 does not disable the log

---
 src/CAsyncLog.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/CAsyncLog.cpp b/src/CAsyncLog.cpp
index d89dc6c..070785e 100644
--- a/src/CAsyncLog.cpp
+++ b/src/CAsyncLog.cpp
@@ -51,6 +51,7 @@ namespace lce
 		m_poWriteBuffer2->init(dwBufSize);
 		m_poCurWirteBuffer = m_poWriteBuffer1;
 		m_iLogSecs = iLogSecs;
+		m_ofsOutFile.rdbuf()->pubsetbuf(NULL, 0);
 
 		start();
 
@@ -173,6 +174,14 @@ namespace lce
 
 		m_ofsOutFile.flush();
 
+		if (m_ofsOutFile.fail())
+		{
+			snprintf(m_szErrMsg, sizeof(m_szErrMsg), "write file<%s> err!", m_sLogFilePath.c_str());
+			m_ofsOutFile.close();
+			m_ofsOutFile.clear();
+			return false;
+		}
+
 		return true;
 	}
 
-- 
2.43.0


From ed4f03f154856cf3eb40dd1b5311dead18afb573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:00 +0000
Subject: [PATCH 089/117] fix: CFileLog: a failed write is reported and does
 not disable the log

---
 src/CFileLog.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/CFileLog.cpp b/src/CFileLog.cpp
index ec3ecc3..dd98651 100644
--- a/src/CFileLog.cpp
+++ b/src/CFileLog.cpp
@@ -19,6 +19,7 @@ namespace lce
 		m_dwLogFileMaxSize = dwLogFileMaxSize;
 		m_uiLogFileNum = uiLogFileNum;
 		m_bShowCmd = bShowCmd;
+		m_ofsOutFile.rdbuf()->pubsetbuf(NULL, 0);
 		return true;
 	}
 
@@ -86,6 +87,12 @@ namespace lce
 			std::cout << str << std::endl;
 		}
 
+		if (m_ofsOutFile.fail())
+		{
+			m_ofsOutFile.close();
+			m_ofsOutFile.clear();
+		}
+
 		if (!m_ofsOutFile.is_open())
 		{
 			m_ofsOutFile.open(m_sLogFilePath.c_str(), std::ios::out | std::ios::app);
@@ -113,10 +120,15 @@ namespace lce
 			return false;
 		}
 
-		m_ofsOutFile << str;
-		if (bEnd)
+		m_ofsOutFile << (bEnd ? str + "\n" : str);
+		m_ofsOutFile.flush();
+
+		if (m_ofsOutFile.fail())
 		{
-			m_ofsOutFile << std::endl;
+			snprintf(m_szErrMsg, sizeof(m_szErrMsg), "write file<%s> err!", m_sLogFilePath.c_str());
+			m_ofsOutFile.close();
+			m_ofsOutFile.clear();
+			return false;
 		}
 
 		return true;
-- 
2.43.0


From 7bc05c968298ea5ac9cec7b780b7fda2455a9a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:00 +0000
Subject: [PATCH 090/117] fix: CFileLog: time stamps do not share a static
 buffer

---
 include/CFileLog.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/CFileLog.h b/include/CFileLog.h
index 96fdb73..212096a 100644
--- a/include/CFileLog.h
+++ b/include/CFileLog.h
@@ -66,7 +66,7 @@ namespace lce
 			time_t iCurTime;
 			time(&iCurTime);
 			struct tm curr;
-			curr = *localtime(&iCurTime);
+			localtime_r(&iCurTime, &curr);
 			char szDate[50];
 			snprintf(szDate, sizeof(szDate), "%04d-%02d-%02d %02d:%02d:%02d", curr.tm_year + 1900, curr.tm_mon + 1, curr.tm_mday, curr.tm_hour, curr.tm_min, curr.tm_sec);
 			return std::string(szDate);
@@ -77,7 +77,7 @@ namespace lce
 			time_t iCurTime;
 			time(&iCurTime);
 			struct tm curr;
-			curr = *localtime(&iCurTime);
+			localtime_r(&iCurTime, &curr);
 			char szDate[50];
 			snprintf(szDate, sizeof(szDate), "%04d-%02d-%02d", curr.tm_year + 1900, curr.tm_mon + 1, curr.tm_mday);
 			return std::string(szDate);
-- 
2.43.0


From 56293aab51d921a1b861582580a9b5524b37536e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:30 +0000
Subject: [PATCH 091/117] fix: CTcpConnector: a connection made at once is
 usable

---
 src/CTcpConnector.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CTcpConnector.cpp b/src/CTcpConnector.cpp
index 704beaf..066eccd 100644
--- a/src/CTcpConnector.cpp
+++ b/src/CTcpConnector.cpp
@@ -57,6 +57,7 @@ namespace lce
 		{
 			flag &= ~O_NONBLOCK;
 			fcntl(m_iFd, F_SETFL, flag); // 设置阻塞
+			m_bConnect = true;
 			return true;
 		}
 
-- 
2.43.0


From 1a8c875656f4a5606e017c29a69cd24158c75b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:30 +0000
Subject: [PATCH 092/117] fix: CTcpConnector: writing to a broken connection
 does not raise SIGPIPE

---
 src/CTcpConnector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTcpConnector.cpp b/src/CTcpConnector.cpp
index 066eccd..617de52 100644
--- a/src/CTcpConnector.cpp
+++ b/src/CTcpConnector.cpp
@@ -132,7 +132,7 @@ namespace lce
 		setsockopt(m_iFd, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof(tv));
 
 		int iSendLen = -1;
-		iSendLen = ::send(m_iFd, pData, iSize, 0);
+		iSendLen = ::send(m_iFd, pData, iSize, MSG_NOSIGNAL);
 		if (iSendLen < 0)
 		{
 			snprintf(m_szErrMsg, sizeof(m_szErrMsg), "Write: send error:%s.", strerror(errno));
-- 
2.43.0


From cb46ec195aeb491fa53c7ec98f7b772880e6b626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:30 +0000
Subject: [PATCH 093/117] fix: CTcpConnector: connect with descriptors beyond
 FD_SETSIZE

---
 src/CTcpConnector.cpp | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/CTcpConnector.cpp b/src/CTcpConnector.cpp
index 617de52..7c02a19 100644
--- a/src/CTcpConnector.cpp
+++ b/src/CTcpConnector.cpp
@@ -7,6 +7,7 @@
 #include <string.h>
 #include <stdio.h>
 #include <fcntl.h>
+#include <poll.h>
 #include <unistd.h>
 
 namespace lce
@@ -69,21 +70,15 @@ namespace lce
 		}
 		else
 		{
-			struct timeval tv;
-
-			tv.tv_sec = m_dwTimeout / 1000;
-			tv.tv_usec = (m_dwTimeout % 1000) * 1000;
-
-			fd_set set, rset;
-			FD_ZERO(&set);
-			FD_ZERO(&rset);
-			FD_SET(m_iFd, &set);
-			FD_SET(m_iFd, &rset);
-			ret = select(m_iFd + 1, &rset, &set, NULL, &tv);
+			struct pollfd stPoll;
+			stPoll.fd = m_iFd;
+			stPoll.events = POLLIN | POLLOUT;
+			stPoll.revents = 0;
+			ret = poll(&stPoll, 1, m_dwTimeout);
 
 			if (ret < 0)
 			{
-				snprintf(m_szErrMsg, sizeof(m_szErrMsg), "Connect:select error(%d):%s.", errno, strerror(errno));
+				snprintf(m_szErrMsg, sizeof(m_szErrMsg), "Connect:poll error(%d):%s.", errno, strerror(errno));
 				close();
 				return false;
 			}
-- 
2.43.0


From f16b1d23a0eaf20396e2de7d1e8a9ffa5bf0a032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:30 +0000
Subject: [PATCH 094/117] fix: CUdpConnector: a failed write returns -1

---
 src/CUdpConnector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CUdpConnector.cpp b/src/CUdpConnector.cpp
index 6b85fac..0af6deb 100644
--- a/src/CUdpConnector.cpp
+++ b/src/CUdpConnector.cpp
@@ -105,7 +105,7 @@ namespace lce
 		if (iSendLen < 0)
 		{
 			snprintf(m_szErrMsg, sizeof(m_szErrMsg), "sendto error:%s", strerror(errno));
-			return false;
+			return -1;
 		}
 
 		return iSendLen;
-- 
2.43.0


From 520ed8ffce52356181e6bc2b03301fd23f2c09a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:30 +0000
Subject: [PATCH 095/117] fix: CUdpConnector: connecting again closes the
 previous socket

---
 src/CUdpConnector.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/CUdpConnector.cpp b/src/CUdpConnector.cpp
index 0af6deb..bc33b5b 100644
--- a/src/CUdpConnector.cpp
+++ b/src/CUdpConnector.cpp
@@ -53,6 +53,11 @@ namespace lce
 		m_sSvrIp = sSvrIp;
 		m_wSvrPort = wSvrPort;
 
+		if (m_iFd != INVALID_SOCKET)
+		{
+			close();
+		}
+
 		if ((m_iFd = socket(AF_INET, SOCK_DGRAM, 0)) == INVALID_SOCKET)
 		{
 			snprintf(m_szErrMsg, sizeof(m_szErrMsg), "Connect: socket error(%d):%s.", errno, strerror(errno));
-- 
2.43.0


From de7f99f3d6db98236b34571db192cbb4d7f05b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:31 +0000
Subject: [PATCH 096/117] fix: CUdpConnector: work without a private address

---
 src/CUdpConnector.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CUdpConnector.cpp b/src/CUdpConnector.cpp
index bc33b5b..2bff5ea 100644
--- a/src/CUdpConnector.cpp
+++ b/src/CUdpConnector.cpp
@@ -72,7 +72,8 @@ namespace lce
 		sockClentAddr.sin_family = AF_INET;
 		if (sLocalIp.empty())
 		{
-			sockClentAddr.sin_addr.s_addr = inet_addr(getLocalIp());
+			const char *pLocalIp = getLocalIp();
+			sockClentAddr.sin_addr.s_addr = pLocalIp != NULL ? inet_addr(pLocalIp) : htonl(INADDR_ANY);
 		}
 		else
 		{
-- 
2.43.0


From 8d486a230621e35567b24ebc6c42e06e8c6c15cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:55 +0000
Subject: [PATCH 097/117] fix: CCommMgr: UDP servers read whole datagrams

---
 include/CCommMgr.h |  1 +
 src/CCommMgr.cpp   | 53 ++++++++++++++++------------------------------
 2 files changed, 19 insertions(+), 35 deletions(-)

diff --git a/include/CCommMgr.h b/include/CCommMgr.h
index 549faaa..ba6b358 100755
--- a/include/CCommMgr.h
+++ b/include/CCommMgr.h
@@ -105,6 +105,7 @@ namespace lce
     private:
         vector<StServerInfo *> m_vecServers;
         vector<StClientInfo> m_vecClients;
+        vector<char> m_vecUdpBuf;
         map<int, CProcessor *> m_mapSigProcs;
         CEvent m_oCEvent;
         char m_szErrMsg[1024];
diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index 4c9034d..cfe641e 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -222,73 +222,56 @@ namespace lce
     {
 
         StServerInfo *pstServerInfo = (StServerInfo *)pData;
-        StClientInfo *pstClientInfo = &m_vecClients[iFd];
 
         StSession stSession;
         stSession.ddwBeginTime = lce::GetTickCount();
         stSession.iFd = iFd;
         stSession.iSvrId = pstServerInfo->iSrvId;
+        memset(&stSession.stClientAddr, 0, sizeof(stSession.stClientAddr));
 
         int iAddrLen = sizeof(struct sockaddr_in);
 
-        pstClientInfo->iSrvId = pstServerInfo->iSrvId;
-
-        if (pstClientInfo->pSocketRecvBuf == NULL)
+        // a datagram is read at once, so the buffer must hold the largest one
+        if (m_vecUdpBuf.size() < pstServerInfo->dwMaxRecvBufLen + 1)
         {
-            pstClientInfo->pSocketRecvBuf = new CSocketBuf(pstServerInfo->dwInitRecvBufLen, pstServerInfo->dwMaxRecvBufLen);
+            m_vecUdpBuf.resize(pstServerInfo->dwMaxRecvBufLen + 1);
         }
 
-        int iSize = 0;
+        int iSize = ::recvfrom(iFd, &m_vecUdpBuf[0], pstServerInfo->dwMaxRecvBufLen + 1, 0, (struct sockaddr *)&stSession.stClientAddr, (socklen_t *)&iAddrLen);
 
-        if (pstClientInfo->pSocketRecvBuf->getFreeSize() == 0)
+        if (iSize > (int)pstServerInfo->dwMaxRecvBufLen)
         {
-            pstClientInfo->pSocketRecvBuf->addFreeBuf();
-        }
-
-        if (pstClientInfo->pSocketRecvBuf->getFreeSize() == 0)
-        {
-            // print error no buf size
-            pstClientInfo->pSocketRecvBuf->reset();
             snprintf(m_szErrMsg, sizeof(m_szErrMsg), "onUdpRead %s,%d,socket buf no memory", __FILE__, __LINE__);
             if (pstServerInfo->pProcessor != NULL)
                 pstServerInfo->pProcessor->onError(stSession, m_szErrMsg, ERR_NO_BUFFER);
-            return;
         }
-
-        iSize = ::recvfrom(iFd, pstClientInfo->pSocketRecvBuf->getFreeBuf(), pstClientInfo->pSocketRecvBuf->getFreeSize(), 0, (struct sockaddr *)&pstClientInfo->stClientAddr, (socklen_t *)&iAddrLen);
-
-        stSession.stClientAddr = pstClientInfo->stClientAddr;
-
-        if (iSize > 0)
+        else if (iSize > 0)
         {
-            pstClientInfo->pSocketRecvBuf->addData(iSize);
-
-            int iWholePkgFlag = 0;
             int iRealPkgLen = 0;
             int iPkgLen = 0;
 
-            while ((iWholePkgFlag = pstServerInfo->pPackageFilter->isWholePkg(pstClientInfo->pSocketRecvBuf->getData(), pstClientInfo->pSocketRecvBuf->getSize(), iRealPkgLen, iPkgLen)) == 0)
+            if (pstServerInfo->pPackageFilter == NULL)
             {
-
+                snprintf(m_szErrMsg, sizeof(m_szErrMsg), "onUdpRead %s,%d,package filter is null", __FILE__, __LINE__);
                 if (pstServerInfo->pProcessor != NULL)
-                    pstServerInfo->pProcessor->onRead(stSession, pstClientInfo->pSocketRecvBuf->getData(), iPkgLen);
-
-                pstClientInfo->pSocketRecvBuf->reset();
-                break;
+                    pstServerInfo->pProcessor->onError(stSession, m_szErrMsg, ERR_PKG_FILTER);
+                return;
             }
 
-            if (-2 == iWholePkgFlag || -1 == iWholePkgFlag) // �Ƿ����ݰ�
+            if (pstServerInfo->pPackageFilter->isWholePkg(&m_vecUdpBuf[0], iSize, iRealPkgLen, iPkgLen) == 0)
             {
-
-                pstClientInfo->pSocketRecvBuf->reset();
-                snprintf(m_szErrMsg, sizeof(m_szErrMsg), "onUdpRead %s,%d,package invalid,errno=%d,msg=%s", __FILE__, __LINE__, errno, strerror(errno));
+                if (pstServerInfo->pProcessor != NULL)
+                    pstServerInfo->pProcessor->onRead(stSession, &m_vecUdpBuf[0], iPkgLen);
+            }
+            else
+            {
+                snprintf(m_szErrMsg, sizeof(m_szErrMsg), "onUdpRead %s,%d,package invalid", __FILE__, __LINE__);
                 if (pstServerInfo->pProcessor != NULL)
                     pstServerInfo->pProcessor->onError(stSession, m_szErrMsg, ERR_INVALID_PACKAGE);
             }
         }
         else
         {
-            pstClientInfo->pSocketRecvBuf->reset();
             snprintf(m_szErrMsg, sizeof(m_szErrMsg), "onUdpRead %s,%d,errno=%d,msg=%s", __FILE__, __LINE__, errno, strerror(errno));
             if (pstServerInfo->pProcessor != NULL)
                 pstServerInfo->pProcessor->onError(stSession, m_szErrMsg, ERR_SOCKET);
-- 
2.43.0


From 22d4071d7a8e3aba5266d71bd88e353afcc6fc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:06 +0000
Subject: [PATCH 098/117] fix: worker pools: no error handler unless one is set

---
 include/CAnyWorkerPool.h  | 1 +
 include/CHttpWorkerPool.h | 1 +
 include/CRawWorkerPool.h  | 1 +
 3 files changed, 3 insertions(+)

diff --git a/include/CAnyWorkerPool.h b/include/CAnyWorkerPool.h
index afcc651..b7262c1 100644
--- a/include/CAnyWorkerPool.h
+++ b/include/CAnyWorkerPool.h
@@ -50,6 +50,7 @@ namespace lce
     template <class T>
     CAnyWorkerPool<T>::CAnyWorkerPool()
     {
+        m_pErrHandler = NULL;
     }
 
     template <class T>
diff --git a/include/CHttpWorkerPool.h b/include/CHttpWorkerPool.h
index b09626e..63a73c2 100644
--- a/include/CHttpWorkerPool.h
+++ b/include/CHttpWorkerPool.h
@@ -50,6 +50,7 @@ namespace lce
     template <class T>
     CHttpWorkerPool<T>::CHttpWorkerPool()
     {
+        m_pErrHandler = NULL;
     }
 
     template <class T>
diff --git a/include/CRawWorkerPool.h b/include/CRawWorkerPool.h
index 7792766..fcb8814 100644
--- a/include/CRawWorkerPool.h
+++ b/include/CRawWorkerPool.h
@@ -50,6 +50,7 @@ namespace lce
     template <class T>
     CRawWorkerPool<T>::CRawWorkerPool()
     {
+        m_pErrHandler = NULL;
     }
 
     template <class T>
-- 
2.43.0


From 5c7b1b8698d8b027496206c43021f8302954995d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:06 +0000
Subject: [PATCH 099/117] fix: worker pools: free a request that is not queued

---
 include/CAnyWorkerPool.h  | 1 +
 include/CHttpWorkerPool.h | 1 +
 include/CRawWorkerPool.h  | 1 +
 3 files changed, 3 insertions(+)

diff --git a/include/CAnyWorkerPool.h b/include/CAnyWorkerPool.h
index b7262c1..2616b68 100644
--- a/include/CAnyWorkerPool.h
+++ b/include/CAnyWorkerPool.h
@@ -99,6 +99,7 @@ namespace lce
             {
                 if (m_pErrHandler != NULL)
                     m_pErrHandler("task queue full");
+                delete poRequest;
             }
         }
         catch (const exception &e)
diff --git a/include/CHttpWorkerPool.h b/include/CHttpWorkerPool.h
index 63a73c2..8ad478c 100644
--- a/include/CHttpWorkerPool.h
+++ b/include/CHttpWorkerPool.h
@@ -99,6 +99,7 @@ namespace lce
             {
                 if (m_pErrHandler != NULL)
                     m_pErrHandler("task queue full");
+                delete poRequest;
             }
         }
         catch (const exception &e)
diff --git a/include/CRawWorkerPool.h b/include/CRawWorkerPool.h
index fcb8814..2eb1677 100644
--- a/include/CRawWorkerPool.h
+++ b/include/CRawWorkerPool.h
@@ -95,6 +95,7 @@ namespace lce
         {
             if (m_pErrHandler != NULL)
                 m_pErrHandler("task queue full");
+            delete pstRequest;
         }
     }
 
-- 
2.43.0


From ac5efa09a4894405b8b500634e9e2ab5301394ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:06 +0000
Subject: [PATCH 100/117] fix: worker pools: free a response that is not sent

---
 include/CAnyWorkerPool.h  | 1 +
 include/CHttpWorkerPool.h | 1 +
 include/CRawWorkerPool.h  | 1 +
 3 files changed, 3 insertions(+)

diff --git a/include/CAnyWorkerPool.h b/include/CAnyWorkerPool.h
index 2616b68..86f8ed3 100644
--- a/include/CAnyWorkerPool.h
+++ b/include/CAnyWorkerPool.h
@@ -131,6 +131,7 @@ namespace lce
             {
                 if (m_pErrHandler != NULL)
                     m_pErrHandler(CCommMgr::getInstance().getErrMsg());
+                delete poResponse;
             }
         }
         catch (const exception &e)
diff --git a/include/CHttpWorkerPool.h b/include/CHttpWorkerPool.h
index 8ad478c..238988a 100644
--- a/include/CHttpWorkerPool.h
+++ b/include/CHttpWorkerPool.h
@@ -129,6 +129,7 @@ namespace lce
             {
                 if (m_pErrHandler != NULL)
                     m_pErrHandler(CCommMgr::getInstance().getErrMsg());
+                delete poResponse;
             }
         }
         catch (const exception &e)
diff --git a/include/CRawWorkerPool.h b/include/CRawWorkerPool.h
index 2eb1677..6c727b3 100644
--- a/include/CRawWorkerPool.h
+++ b/include/CRawWorkerPool.h
@@ -112,6 +112,7 @@ namespace lce
             {
                 if (m_pErrHandler != NULL)
                     m_pErrHandler(CCommMgr::getInstance().getErrMsg());
+                delete pstResponse;
             }
         }
         catch (const exception &e)
-- 
2.43.0


From 4746fa6290309846a07d5d27933402074e0bc0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:06 +0000
Subject: [PATCH 101/117] fix: worker pools: end the threads before deleting
 their workers

---
 include/CAnyWorkerPool.h  |  1 +
 include/CHttpWorkerPool.h |  1 +
 include/CRawWorkerPool.h  |  1 +
 include/CTask.h           |  3 +++
 src/CTask.cpp             | 10 ++++++++--
 5 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/CAnyWorkerPool.h b/include/CAnyWorkerPool.h
index 86f8ed3..f690d10 100644
--- a/include/CAnyWorkerPool.h
+++ b/include/CAnyWorkerPool.h
@@ -42,6 +42,7 @@ namespace lce
     template <class T>
     CAnyWorkerPool<T>::~CAnyWorkerPool()
     {
+        joinThreads(); // they use the workers
         for (size_t i = 0; i < m_vecWorkers.size(); i++)
         {
             delete m_vecWorkers[i];
diff --git a/include/CHttpWorkerPool.h b/include/CHttpWorkerPool.h
index 238988a..5bf27aa 100644
--- a/include/CHttpWorkerPool.h
+++ b/include/CHttpWorkerPool.h
@@ -42,6 +42,7 @@ namespace lce
     template <class T>
     CHttpWorkerPool<T>::~CHttpWorkerPool()
     {
+        joinThreads(); // they use the workers
         for (size_t i = 0; i < m_vecWorkers.size(); i++)
         {
             delete m_vecWorkers[i];
diff --git a/include/CRawWorkerPool.h b/include/CRawWorkerPool.h
index 6c727b3..3bdd15d 100644
--- a/include/CRawWorkerPool.h
+++ b/include/CRawWorkerPool.h
@@ -42,6 +42,7 @@ namespace lce
     template <class T>
     CRawWorkerPool<T>::~CRawWorkerPool()
     {
+        joinThreads(); // they use the workers
         for (size_t i = 0; i < m_vecWorkers.size(); i++)
         {
             delete m_vecWorkers[i];
diff --git a/include/CTask.h b/include/CTask.h
index 87809a6..cc90f31 100644
--- a/include/CTask.h
+++ b/include/CTask.h
@@ -94,6 +94,9 @@ namespace lce
 
         char *getErrMsg() { return m_szErrMsg; }
 
+    protected:
+        void joinThreads();
+
     private:
         int m_iThreadNum;
         pthread_mutex_t m_lock;
diff --git a/src/CTask.cpp b/src/CTask.cpp
index 78fb5d1..c456ed2 100644
--- a/src/CTask.cpp
+++ b/src/CTask.cpp
@@ -57,15 +57,21 @@ namespace lce
         return 0;
     }
 
-    CTask::~CTask()
+    void CTask::joinThreads()
     {
-        // the threads use the lock and the queue until they have ended
         for (vector<CTaskThread *>::iterator it1 = m_vecTaskThreads.begin(); it1 != m_vecTaskThreads.end(); ++it1)
         {
             (*it1)->stop();
             (*it1)->join();
             delete (*it1);
         }
+        m_vecTaskThreads.clear();
+    }
+
+    CTask::~CTask()
+    {
+        // the threads use the lock and the queue until they have ended
+        joinThreads();
 
         pthread_mutex_destroy(&m_lock);
         pthread_cond_destroy(&m_cond);
-- 
2.43.0


From 56b6e22c5e2d819307d85e54abc20b62e1ca693b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:37 +0000
Subject: [PATCH 102/117] fix: CEvent: queue a message only when posting it
 succeeds

---
 src/CEvent.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/CEvent.cpp b/src/CEvent.cpp
index 545e360..0f9426d 100644
--- a/src/CEvent.cpp
+++ b/src/CEvent.cpp
@@ -262,14 +262,15 @@ namespace lce
 
         ::pthread_mutex_lock(&m_lock);
 
-        m_queMsgEvents.push(stMsgEvent);
-
         int iFlag = write(m_iMsgFd[1], "1", 1);
 
         // a full pipe wakes the loop up all the same
         if (iFlag < 0 && errno == EAGAIN)
             iFlag = 0;
 
+        if (iFlag >= 0)
+            m_queMsgEvents.push(stMsgEvent);
+
         ::pthread_mutex_unlock(&m_lock);
 
         if (iFlag < 0)
-- 
2.43.0


From ff4b57f8a24b6a98eb352b3dd5f3fd3e160b09d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:27 +0000
Subject: [PATCH 103/117] fix: CAnyWorkerPool: answers carry the start mark and
 their length

---
 include/CAnyWorkerPool.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/CAnyWorkerPool.h b/include/CAnyWorkerPool.h
index f690d10..3156fa6 100644
--- a/include/CAnyWorkerPool.h
+++ b/include/CAnyWorkerPool.h
@@ -128,6 +128,8 @@ namespace lce
             m_vecWorkers[iIndex]->onRequest(*poRequest, *poResponse);
             poResponse->getWriter().encode();
             poResponse->getWriter().setEtx();
+            poResponse->getWriter().head().setStx(0x2);
+            poResponse->getWriter().head().setLen(poResponse->getWriter().size());
             if (CCommMgr::getInstance().sendMessage(iTaskType, this, poResponse) < 0)
             {
                 if (m_pErrHandler != NULL)
-- 
2.43.0


From d22e7840d20d980db3764ee2e28c112489fe9162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:21 +0000
Subject: [PATCH 104/117] fix: CLruCache: getSize takes the lock

---
 include/CLruCache.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/CLruCache.h b/include/CLruCache.h
index 89d8857..49c0731 100644
--- a/include/CLruCache.h
+++ b/include/CLruCache.h
@@ -48,7 +48,11 @@ namespace lce
             clearList();
         }
 
-        size_t getSize() { return m_mapCache.size(); }
+        size_t getSize()
+        {
+            CAutoLock lock(m_oMutex);
+            return m_mapCache.size();
+        }
         size_t getMaxSize() { return m_dwMaxSize; }
 
     private:
-- 
2.43.0


From b49ee41f8370bcc5a1f0daa33d068eaa6fbffcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:39 +0000
Subject: [PATCH 105/117] fix: CMySql::query keeps affected row counts beyond
 the int range

---
 src/CMysql.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/CMysql.cpp b/src/CMysql.cpp
index ca3f86a..394f3d6 100755
--- a/src/CMysql.cpp
+++ b/src/CMysql.cpp
@@ -244,14 +244,14 @@ namespace lce
         MySqlBasicData *data = new MySqlBasicData();
         if (mysql_field_count(_Mysql) == 0)
         {
-            int inum = mysql_affected_rows(_Mysql);
+            my_ulonglong ddwNum = mysql_affected_rows(_Mysql);
             string err(sql);
-            if (inum < 0)
+            if (ddwNum == (my_ulonglong)-1)
             {
                 delete data;
                 throw mysql_exception(string("CMySql::query: ") + mysql_error(_Mysql) + "|" + err);
             }
-            data->affected_rows(inum);
+            data->affected_rows(ddwNum);
             return MySqlData(data);
         }
         MYSQL_RES *pstMySqlRes = mysql_store_result(_Mysql);
-- 
2.43.0


From 6d651bf0b755957132f55817aa337efe23e36e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:39 +0000
Subject: [PATCH 106/117] fix: MySqlData survives assignment from itself

---
 src/CMysql.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CMysql.cpp b/src/CMysql.cpp
index 394f3d6..09e1462 100755
--- a/src/CMysql.cpp
+++ b/src/CMysql.cpp
@@ -88,10 +88,10 @@ namespace lce
 
     void MySqlData::operator=(const MySqlData &right)
     {
+        right._data->RefAdd();
         if (_data)
             _data->RefSub();
         _data = right._data;
-        _data->RefAdd();
     }
 
     MySqlData::MySqlData(MySqlBasicData *data)
-- 
2.43.0


From 45f4666ef1de8d048aa0da5ad48bacd2af1adbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:39 +0000
Subject: [PATCH 107/117] fix: CMySql::query repeats a query after a lost
 connection without a database

---
 src/CMysql.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CMysql.cpp b/src/CMysql.cpp
index 09e1462..b8036a7 100755
--- a/src/CMysql.cpp
+++ b/src/CMysql.cpp
@@ -230,7 +230,7 @@ namespace lce
             if (ret_errno == 2013 || ret_errno == 2006)
             {
                 Connect();
-                if (mysql_select_db(_Mysql, _dbname.c_str()))
+                if (!_dbname.empty() && mysql_select_db(_Mysql, _dbname.c_str()))
                     throw mysql_exception(string("CMySql::query: mysql_select_db ") + _dbname + ":" + mysql_error(_Mysql));
                 if (mysql_real_query(_Mysql, sql.c_str(), sql.length()))
                     throw mysql_exception(string("CMySql::query: ") + mysql_error(_Mysql) + "|" + err);
-- 
2.43.0


From baa3149bb012b2eb3b5b614c55d445895bd2546b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:39 +0000
Subject: [PATCH 108/117] fix: CMySql closes a new connection whose database
 cannot be selected

---
 src/CMysql.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/CMysql.cpp b/src/CMysql.cpp
index b8036a7..a39c1e1 100755
--- a/src/CMysql.cpp
+++ b/src/CMysql.cpp
@@ -216,7 +216,11 @@ namespace lce
             }
 
             if (mysql_select_db(_Mysql, _dbname.c_str()))
-                throw mysql_exception(string("CMySql::Select: mysql_select_db ") + _dbname + ":" + mysql_error(_Mysql));
+            {
+                string sErr(mysql_error(_Mysql));
+                Close();
+                throw mysql_exception(string("CMySql::Select: mysql_select_db ") + _dbname + ":" + sErr);
+            }
         }
     }
 
@@ -231,7 +235,11 @@ namespace lce
             {
                 Connect();
                 if (!_dbname.empty() && mysql_select_db(_Mysql, _dbname.c_str()))
-                    throw mysql_exception(string("CMySql::query: mysql_select_db ") + _dbname + ":" + mysql_error(_Mysql));
+                {
+                    string sErr(mysql_error(_Mysql));
+                    Close();
+                    throw mysql_exception(string("CMySql::query: mysql_select_db ") + _dbname + ":" + sErr);
+                }
                 if (mysql_real_query(_Mysql, sql.c_str(), sql.length()))
                     throw mysql_exception(string("CMySql::query: ") + mysql_error(_Mysql) + "|" + err);
             }
@@ -376,7 +384,11 @@ namespace lce
             }
 
             if (mysql_select_db(_Mysql, _dbname.c_str()))
-                throw mysql_exception(string("CMySql::Select: mysql_select_db ") + _dbname + ":" + mysql_error(_Mysql));
+            {
+                string sErr(mysql_error(_Mysql));
+                Close();
+                throw mysql_exception(string("CMySql::Select: mysql_select_db ") + _dbname + ":" + sErr);
+            }
         }
     }
 
-- 
2.43.0


From 6096d48c76bf5313a463b5bd7f2b2f6788f9198e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:39 +0000
Subject: [PATCH 109/117] fix: CMySql::Init forgets the database of the
 previous server

---
 src/CMysql.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CMysql.cpp b/src/CMysql.cpp
index a39c1e1..3108e30 100755
--- a/src/CMysql.cpp
+++ b/src/CMysql.cpp
@@ -165,6 +165,7 @@ namespace lce
         _pass = pass;
         _port = port;
         _charSet = charSet;
+        _dbname.clear();
 
         _Mysql = new MYSQL;
         Connect();
-- 
2.43.0


From 83d594cbda5a3e7db98c989a4610ef1e6d81610f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:13 +0000
Subject: [PATCH 110/117] fix: CCommMgr::onSignal leaves errno as it was

---
 src/CCommMgr.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index cfe641e..70526f8 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -950,11 +950,13 @@ namespace lce
 
     void CCommMgr::onSignal(int iSignal)
     {
+        int iErrno = errno; // of the code that is interrupted
         map<int, CProcessor *>::iterator it = CCommMgr::getInstance().m_mapSigProcs.find(iSignal);
         if (it != CCommMgr::getInstance().m_mapSigProcs.end())
         {
             it->second->onSignal(iSignal);
         }
+        errno = iErrno;
     }
 
     int CCommMgr::sendMessage(int iMsgType, CProcessor *pProcessor, void *pData)
-- 
2.43.0


From 1081c5a899de2aa42e4b859726b3a92a8f19a5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:13 +0000
Subject: [PATCH 111/117] fix: CCommMgr::addSigHandler reports signals that
 cannot be handled

---
 src/CCommMgr.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index 70526f8..718a1c2 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -944,7 +944,11 @@ namespace lce
         }
         m_mapSigProcs[iSignal] = pProcessor;
 
-        signal(iSignal, CCommMgr::onSignal);
+        if (signal(iSignal, CCommMgr::onSignal) == SIG_ERR)
+        {
+            snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,errno:%d,error:%s", __FILE__, __LINE__, errno, "signal error");
+            return -1;
+        }
         return 0;
     }
 
-- 
2.43.0


From daf597831637e1e0f0b64ca306b9ccfe1aff31e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:14 +0000
Subject: [PATCH 112/117] fix: CCommMgr::write: a later write does not undo a
 closing one

---
 src/CCommMgr.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index 718a1c2..67bb369 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -528,6 +528,8 @@ namespace lce
 
         StServerInfo *pstServerInfo = m_vecServers[stSession.iSvrId];
 
+        // a later write does not take the close back
+        bClose = bClose || pstClientInfo->bNeedClose;
         pstClientInfo->bNeedClose = bClose;
         int iSendBufSize = 0;
         int iSendSize = 0;
@@ -779,6 +781,7 @@ namespace lce
             if (iType == SRV_TCP || iType == CONN_TCP)
             {
                 pstClientInfo->iFd = 0;
+                pstClientInfo->bNeedClose = false;
 
                 if (pstClientInfo->pSocketRecvBuf != NULL)
                 {
-- 
2.43.0


From 68bd0d8dd7450a966229eb897ce7fc1cfcb28cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:14 +0000
Subject: [PATCH 113/117] fix: CNetWorker::write: a later write does not undo a
 closing one

---
 src/CNetWorker.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CNetWorker.cpp b/src/CNetWorker.cpp
index 24838f8..4c1c77c 100755
--- a/src/CNetWorker.cpp
+++ b/src/CNetWorker.cpp
@@ -454,6 +454,8 @@ namespace lce
 
 		StServerInfo *pstServerInfo = pstClientInfo->pstServerInfo;
 
+		// a later write does not take the close back
+		bClose = bClose || pstClientInfo->bNeedClose;
 		pstClientInfo->bNeedClose = bClose;
 		int iSendBufSize = 0;
 		int iSendSize = 0;
-- 
2.43.0


From 595c3f1041f888988a79dd835444b0458798572c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:28 +0000
Subject: [PATCH 114/117] fix: CHttpWriter::setCookie replaces an earlier value

---
 include/CHttpWriter.h | 2 +-
 src/CHttpWriter.cpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/CHttpWriter.h b/include/CHttpWriter.h
index 647e556..04b330f 100755
--- a/include/CHttpWriter.h
+++ b/include/CHttpWriter.h
@@ -65,7 +65,7 @@ namespace lce
 			stCookieInfo.sDomain = sDomain;
 			stCookieInfo.sPath = sPath;
 			stCookieInfo.sValue = sstr.str();
-			m_mapCookie.insert(MAP_COOKIE::value_type(sName, stCookieInfo));
+			m_mapCookie[sName] = stCookieInfo;
 		}
 
 		void setCookie(const string &sName, const string &sValue, const string &sDomain = "", const string &sPath = "", const time_t dwCookieTime = 0);
diff --git a/src/CHttpWriter.cpp b/src/CHttpWriter.cpp
index 1bbdf8b..9103fe1 100755
--- a/src/CHttpWriter.cpp
+++ b/src/CHttpWriter.cpp
@@ -16,7 +16,7 @@ namespace lce
 		stCookieInfo.sDomain = sDomain;
 		stCookieInfo.sPath = sPath;
 		stCookieInfo.sValue = sValue;
-		m_mapCookie.insert(MAP_COOKIE::value_type(sName, stCookieInfo));
+		m_mapCookie[sName] = stCookieInfo;
 	}
 
 	void CHttpWriter::end()
-- 
2.43.0


From 0a75ee795f155eeeb3c0fad6fd2d5ea71bff8d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:00 +0000
Subject: [PATCH 115/117] fix: destroying CCommMgr closes its connections

---
 src/CCommMgr.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index 67bb369..a3d4554 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -1027,13 +1027,10 @@ namespace lce
     {
         m_oCEvent.stop();
 
-        for (vector<StServerInfo *>::iterator it = m_vecServers.begin(); it != m_vecServers.end(); ++it)
+        for (size_t i = 0; i < m_vecServers.size(); i++)
         {
-            if (*it == NULL)
-                continue;
-            if ((*it)->iFd > 0)
-                lce::Close((*it)->iFd);
-            delete (*it);
+            if (m_vecServers[i] != NULL)
+                rmSrv(i);
         }
     }
 
-- 
2.43.0


From 42ca6810ab1b514380cca8e4b351f9ae073fd3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:21 +0000
Subject: [PATCH 116/117] fix: a server can be removed from the callbacks of
 its accept loop

---
 src/CCommMgr.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index a3d4554..0c48a17 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -400,11 +400,17 @@ namespace lce
         if (pstServerInfo == NULL)
             return;
 
+        int iSrvId = pstServerInfo->iSrvId;
+
         while (true)
         {
             struct sockaddr_in stClientAddr;
             int iAddrLen = sizeof(struct sockaddr_in);
 
+            // removed by a callback
+            if (m_vecServers[iSrvId] == NULL)
+                break;
+
             int iClientSock = accept(iFd, (struct sockaddr *)&stClientAddr, (socklen_t *)&iAddrLen);
 
             StSession stSession;
-- 
2.43.0


From becd2a70dbf69500fcedbf0f3b4dfa1cc1fc8e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:17 +0000
Subject: [PATCH 117/117] fix: SetFileLimit and SetCoreLimit do not lower the
 hard limit

---
 src/Utils.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Utils.cpp b/src/Utils.cpp
index de172e1..5a442dd 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -156,7 +156,8 @@ namespace lce
             if (rlim.rlim_cur < dwLimit)
             {
                 rlim.rlim_cur = dwLimit;
-                rlim.rlim_max = dwLimit;
+                if (rlim.rlim_max < dwLimit)
+                    rlim.rlim_max = dwLimit;
                 if (setrlimit((__rlimit_resource_t)RLIMIT_OFILE, &rlim) == 0)
                 {
                     bOK = true;
@@ -180,7 +181,8 @@ namespace lce
             if (rlim.rlim_cur < dwLimit)
             {
                 rlim.rlim_cur = dwLimit;
-                rlim.rlim_max = dwLimit;
+                if (rlim.rlim_max < dwLimit)
+                    rlim.rlim_max = dwLimit;
                 if (setrlimit((__rlimit_resource_t)RLIMIT_CORE, &rlim) == 0)
                 {
                     bOK = true;
-- 
2.43.0

