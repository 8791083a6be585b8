From 2400c065f7718cb5ccc97795f16e7f24ce401f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:11 +0000
Subject: [PATCH 01/61] fix: read and write whole messages in BasicSocketUtils

A single recv()/write() may transfer fewer bytes than requested, and recv()
returns zero at end of stream: long strings were truncated, a vanished peer
left the received integer uninitialised and a negative length reached realloc.
---
 src/nlp_common/BasicSocketUtils.cc | 111 ++++++++++++++++-------------
 src/nlp_common/BasicSocketUtils.h  |   1 +
 2 files changed, 64 insertions(+), 48 deletions(-)

diff --git a/src/nlp_common/BasicSocketUtils.cc b/src/nlp_common/BasicSocketUtils.cc
index e5cb7cc..cdc991f 100644
--- a/src/nlp_common/BasicSocketUtils.cc
+++ b/src/nlp_common/BasicSocketUtils.cc
@@ -43,20 +43,54 @@ namespace BasicSocketUtils
   }
 
   //---------------
-  int recvStr(int s,char *str)
+      // Read exactly len bytes. A single recv() call may return fewer
+      // bytes than requested, and it returns zero if the peer closed
+      // the connection
+  static void recvAll(int s,char* buf,size_t len,const char* errorMsg)
   {
-    int  numbytes;
-
-    numbytes=recvInt(s);
-    if(numbytes>0)
+    size_t received=0;
+    while(received<len)
     {
-      if ((numbytes=recv(s,str,numbytes,0)) == -1)
+      int numbytes=recv(s,buf+received,len-received,0);
+      if(numbytes==-1 && errno==EINTR)
+        continue;
+      if(numbytes<=0)
       {
-            // recv() call
         std::cerr<<"recv() error!"<<std::endl;
-        throw std::runtime_error("Socket error: Cannot read string");
+        throw std::runtime_error(errorMsg);
       }
+      received+=numbytes;
     }
+  }
+
+  //---------------
+      // Write exactly len bytes
+  static void writeAll(int fd,const char* buf,size_t len,const char* errorMsg)
+  {
+    size_t written=0;
+    while(written<len)
+    {
+      int numbytes=write(fd,buf+written,len-written);
+      if(numbytes==-1 && errno==EINTR)
+        continue;
+      if(numbytes==-1)
+      {
+        std::cerr<<"write() error"<<std::endl;
+        throw std::runtime_error(errorMsg);
+      }
+      written+=numbytes;
+    }
+  }
+
+  //---------------
+  int recvStr(int s,char *str)
+  {
+    int  numbytes;
+
+    numbytes=recvInt(s);
+    if(numbytes<0)
+      throw std::runtime_error("Socket error: Cannot read string");
+    recvAll(s,str,numbytes,"Socket error: Cannot read string");
     str[numbytes] = '\0';
     return numbytes;
   }
@@ -65,42 +99,35 @@ namespace BasicSocketUtils
   int recvStlStr(int s,std::string& stlstr)
   {
     int  numbytes;
-    char* str=NULL;
+    std::vector<char> str;
 
     numbytes=recvInt(s);
-    str=(char*) mem_alloc_utils::my_realloc(str,(numbytes+1)*sizeof(char));
-    if(numbytes>0)
+    if(numbytes<0)
+      throw std::runtime_error("Socket error: Cannot read STL string");
+
+        // Memory is reserved as data arrives, since the announced length
+        // is chosen by the peer
+    size_t received=0;
+    while(received<(size_t)numbytes)
     {
-      if ((numbytes=recv(s,str,numbytes,0)) == -1)
-      {
-            // recv() call
-        std::cerr<<"recv() error!"<<std::endl;
-        free(str);
-        throw std::runtime_error("Socket error: Cannot read STL string");
-      }
+      size_t len=numbytes-received;
+      if(len>RECV_CHUNK_SIZE) len=RECV_CHUNK_SIZE;
+      str.resize(received+len);
+      recvAll(s,&str[received],len,"Socket error: Cannot read STL string");
+      received+=len;
     }
-    str[numbytes] = '\0';
-    stlstr=str;
-    free(str);
+    str.push_back('\0');
+    stlstr=&str[0];
     return numbytes;
   }
 
   //---------------
   int recvInt(int s)
   {
-    int numbytes;
     int receivedInt;
 
-    if ((numbytes=recv(s,(char*)&receivedInt,sizeof(int),0)) == -1)
-    {
-          // recv() call
-      std::cerr<<"recv() error!"<<std::endl;
-      throw std::runtime_error("Socket error: Cannot read integer");
-    }
-    else
-    {
-      receivedInt=ntohl(receivedInt);
-    }
+    recvAll(s,(char*)&receivedInt,sizeof(int),"Socket error: Cannot read integer");
+    receivedInt=ntohl(receivedInt);
     return receivedInt;
   }
 
@@ -126,15 +153,9 @@ namespace BasicSocketUtils
   //--------------------------
   int writeInt(int fd,int i)
   {
-    int ret;
-
     i=htonl(i);
-    if((ret=write(fd,(char*) &i,sizeof(i)))==-1)
-    {
-      std::cerr<<"write() error"<<std::endl;
-      throw std::runtime_error("Socket error: Cannot write integer");
-    }
-    return ret;
+    writeAll(fd,(char*) &i,sizeof(i),"Socket error: Cannot write integer");
+    return sizeof(i);
   }
   //--------------------------
   int writeStr(int fd,const char* s)
@@ -144,14 +165,8 @@ namespace BasicSocketUtils
 
     numbytes=strlen(s);
     ret+=writeInt(fd,numbytes);
-    if(numbytes>0)
-    {
-     if((ret+=write(fd,(char*) s,numbytes))==-1)
-     {
-       std::cerr<<"write() error"<<std::endl;
-       throw std::runtime_error("Socket error: Cannot write string");
-     }
-    }
+    writeAll(fd,s,numbytes,"Socket error: Cannot write string");
+    ret+=numbytes;
     return ret;
   }
 
diff --git a/src/nlp_common/BasicSocketUtils.h b/src/nlp_common/BasicSocketUtils.h
index 4d4c6a1..eaa5e6a 100644
--- a/src/nlp_common/BasicSocketUtils.h
+++ b/src/nlp_common/BasicSocketUtils.h
@@ -57,6 +57,7 @@ along with this program; If not, see <http://www.gnu.org/licenses/>.
 //--------------- Constants ------------------------------------------
 
 #define NETWORK_BUFF_SIZE 512
+#define RECV_CHUNK_SIZE 65536
 
 //---------------
 
-- 
2.43.0


From ace25efaa139ea0a3c769eeeec92be3ce6943107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:24 +0000
Subject: [PATCH 02/61] fix: close the connection if the request thread cannot
 be created

The client was left waiting forever for a reply and the descriptor leaked.
---
 src/stack_dec/thot_server.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/stack_dec/thot_server.cc b/src/stack_dec/thot_server.cc
index 6231ac6..38609fd 100644
--- a/src/stack_dec/thot_server.cc
+++ b/src/stack_dec/thot_server.cc
@@ -314,8 +314,10 @@ int start_server(void)
     int thread_err=pthread_create(&tid, &attr, process_request, (void*) rdata_ptr);
     if(thread_err>0)
     {
-          // Release memory since thread was not created
+          // Release memory and close connection since thread was not
+          // created
       delete rdata_ptr;
+      close(new_fd);
       
       StdCerrThreadSafe<<"Warning: call to pthread_create failed"<<std::endl;
     }
-- 
2.43.0


From 4cb555bf3100d00d54c81878da9ebd28ff5228ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:42 +0000
Subject: [PATCH 03/61] fix: release the decoder when user parameters cannot be
 initialised

initUserPars() returned with both operation mutexes locked, so the next
request blocked the server forever, and the server remembered the user as
initialised.
---
 src/stack_dec/ThotDecoder.cc | 6 +++---
 src/stack_dec/thot_server.cc | 7 ++++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/stack_dec/ThotDecoder.cc b/src/stack_dec/ThotDecoder.cc
index 6f4b76d..a03f61f 100644
--- a/src/stack_dec/ThotDecoder.cc
+++ b/src/stack_dec/ThotDecoder.cc
@@ -1063,10 +1063,10 @@ int ThotDecoder::initUserPars(int user_id,
       // Load preproc. info if requested
   if(tdup.sp && tdup.uc_str!="")
     ret=use_caseconv(user_id,tdup.uc_str.c_str(),verbose);
-  if(ret==THOT_ERROR) return THOT_ERROR;
 
       // Set cat weights
-  set_catw(user_id,tdup.catWeightsVec,verbose);
+  if(ret!=THOT_ERROR)
+    set_catw(user_id,tdup.catWeightsVec,verbose);
 
       // Unlock non_atomic_op_cond mutex
   pthread_mutex_unlock(&non_atomic_op_mut);
@@ -1074,7 +1074,7 @@ int ThotDecoder::initUserPars(int user_id,
   /////////// end of mutex 
   pthread_mutex_unlock(&atomic_op_mut);
 
-  return THOT_OK;
+  return ret==THOT_ERROR ? THOT_ERROR : THOT_OK;
 }
 
 //--------------------------
diff --git a/src/stack_dec/thot_server.cc b/src/stack_dec/thot_server.cc
index 38609fd..5d00159 100644
--- a/src/stack_dec/thot_server.cc
+++ b/src/stack_dec/thot_server.cc
@@ -546,11 +546,12 @@ int init_user_pars_if_required(int user_id)
   {
         // User is new
 
-        // Store user
-    user_set.insert(user_id);
-
         // Initialize parameters
     ret=thotDecoderPtr->initUserPars(user_id,tdu_pars,ts_pars.v_given);
+
+        // Store user
+    if(ret!=THOT_ERROR)
+      user_set.insert(user_id);
   }
   return ret;
 }
-- 
2.43.0


From f2054a20e14d1894d76187719993c80d63b43086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:42 +0000
Subject: [PATCH 04/61] fix: do not clear the models while requests are being
 processed

A request received before END_SERVER could run after the models were
cleared: trainings were acknowledged and lost, PRINT_MODELS wrote empty
models and translations were wrong.
---
 src/stack_dec/thot_server.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/stack_dec/thot_server.cc b/src/stack_dec/thot_server.cc
index 5d00159..8c8f502 100644
--- a/src/stack_dec/thot_server.cc
+++ b/src/stack_dec/thot_server.cc
@@ -336,6 +336,9 @@ int start_server(void)
       // Wait for threads to finish
   wait_on_num_threads_var_cond();
 
+      // Clear data structures
+  thotDecoderPtr->clearTrans(ts_pars.v_given);
+
   if(ts_pars.v_given || ts_pars.vd_given)
     StdCerrThreadSafe<<"Server: shutting down"<<std::endl;
 
@@ -528,10 +531,10 @@ void process_request_switch(int sockd,
       break;
 
     case END_SERVER: // NOTE: this request only involves sending
-                     // acknowledgement message to client and clearing
-                     // data structures, end_server variable is not
-                     // modified from here
-      thotDecoderPtr->clearTrans(verbose);
+                     // acknowledgement message to client, end_server
+                     // variable is not modified from here. Data
+                     // structures are cleared once the requests still
+                     // being processed have finished
       BasicSocketUtils::writeInt(sockd,THOT_OK);
       break;
   }
-- 
2.43.0


From d242872fe31fbc69ff189d3435bee973271f658a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:13 +0000
Subject: [PATCH 05/61] fix: make ctimer safe to call from several threads

---
 src/nlp_common/ctimer.c | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/nlp_common/ctimer.c b/src/nlp_common/ctimer.c
index af50f91..486de39 100644
--- a/src/nlp_common/ctimer.c
+++ b/src/nlp_common/ctimer.c
@@ -19,7 +19,26 @@ along with this program; If not, see <http://www.gnu.org/licenses/>.
 
 #include "ctimer.h"
 
+#ifndef THOT_MINGW
+#include <pthread.h>
+
 static double firstcall;
+static pthread_once_t firstcall_once=PTHREAD_ONCE_INIT;
+
+static double current_usegs(void)
+{
+  struct timeval tm;
+  struct timezone tz;
+
+  gettimeofday(&tm, &tz);
+  return tm.tv_usec+tm.tv_sec*1E6;
+}
+
+static void init_firstcall(void)
+{
+  firstcall = current_usegs();
+}
+#endif
 
 /**
  *
@@ -43,25 +62,14 @@ void ctimer(double *elapsed, double *ucpu, double *scpu)
 #ifdef THOT_MINGW
   fprintf(stderr,"Warning: ctimer function not implemented for mingw host!");
 #else
-  struct timeval tm;
-  struct timezone tz;
   struct tms sistema;
-  double usegs;
 
-  gettimeofday(&tm, &tz);
   times(&sistema);
 
-  usegs = tm.tv_usec+tm.tv_sec*1E6;
+      /* NOTE: the function can be called from different threads */
+  pthread_once(&firstcall_once, init_firstcall);
 
-  if (firstcall)
-  {
-    *elapsed = usegs - firstcall;
-  }
-  else
-  {
-    *elapsed = 0;
-    firstcall = usegs;
-  }
+  *elapsed = current_usegs() - firstcall;
 
   *elapsed = *elapsed/1E6;
   *ucpu = (double)sistema.tms_utime/(double)CLOCKS_PER_SEC*1E4;
-- 
2.43.0


From 29a32c1960953f36725dd4211f4705fa71de27f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:13 +0000
Subject: [PATCH 06/61] fix: do not share the date buffers among request
 threads

---
 src/stack_dec/thot_server.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/stack_dec/thot_server.cc b/src/stack_dec/thot_server.cc
index 8c8f502..a1746e1 100644
--- a/src/stack_dec/thot_server.cc
+++ b/src/stack_dec/thot_server.cc
@@ -410,10 +410,20 @@ void* process_request(void* void_ptr)
         // Current date/time based on current system
     time_t now = time(0);
         // Convert now to tm struct for local timezone
+        // (localtime and asctime cannot be used because they share their
+        // buffers among threads)
+    char timestr[64]="\n";
+#ifdef THOT_MINGW
     tm* localtm = localtime(&now);
+    snprintf(timestr,sizeof(timestr),"%s",asctime(localtm));
+#else
+    tm localtm;
+    if(localtime_r(&now,&localtm)!=NULL)
+      asctime_r(&localtm,timestr);
+#endif
     StdCerrThreadSafeCond(printTid)<<"----------------------------------------------------"<<std::endl;
     StdCerrThreadSafeCond(printTid)<<"Processing new request..."<<std::endl;
-    StdCerrThreadSafeCond(printTid)<<"Current time: "<<asctime(localtm);
+    StdCerrThreadSafeCond(printTid)<<"Current time: "<<timestr;
     StdCerrThreadSafeCond(printTid)<<"Origin: "<<inet_ntoa(rdata.sin_addr)<<std::endl;
     StdCerrThreadSafeCond(printTid)<<"Request type: "<<rdata.request_type<<std::endl;
   }
-- 
2.43.0


From 3db2be0c94fed0cf351150f2e7d12c7a6713d477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:23 +0000
Subject: [PATCH 07/61] fix: keep the last character of a file without end of
 line

---
 src/nlp_common/AwkInputStream.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nlp_common/AwkInputStream.cc b/src/nlp_common/AwkInputStream.cc
index 70d0e2f..90573bc 100644
--- a/src/nlp_common/AwkInputStream.cc
+++ b/src/nlp_common/AwkInputStream.cc
@@ -56,7 +56,9 @@ bool AwkInputStream::getln(void)
     read=getline(&buff,&buftlen,filePtr);
     if(read!=-1)
     {
-      buff[read-1]='\0';
+          // NOTE: the last line may lack the end of line character
+      if(read>0 && buff[read-1]=='\n')
+        buff[read-1]='\0';
       ++FNR;   
       NF=get_NF();   
       return true;   
-- 
2.43.0


From 9758a57df480a9283e6093614983452df362a526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:05 +0000
Subject: [PATCH 08/61] fix: report the errors found when writing model files

The functions that save the models returned THOT_OK whatever happened to
the data they wrote, and printTTable left its file open, so that the
phrase table was not completely written until the process exited.
---
 src/incr_models/_incrJelMerNgramLM.h  |  9 ++++++++-
 src/incr_models/_incrNgramLM.h        |  7 ++++++-
 src/incr_models/vecx_x_incr_ecpm.h    |  7 ++++++-
 src/incr_models/vecx_x_incr_enc.h     |  6 ++++++
 src/nlp_common/SingleWordVocab.cc     | 10 ++++++++++
 src/phrase_models/_incrPhraseModel.cc | 15 ++++++++++++++-
 src/stack_dec/PhrLocalSwLiTm.cc       |  7 ++++++-
 src/stack_dec/SmtModelUtils.cc        |  7 ++++++-
 src/sw_models/IncrHmmAligTable.cc     | 12 ++++++++++++
 src/sw_models/IncrIbm2AligTable.cc    | 12 ++++++++++++
 src/sw_models/IncrLexLevelDbTable.cc  | 12 ++++++++++++
 src/sw_models/IncrLexTable.cc         | 12 ++++++++++++
 src/sw_models/LightSentenceHandler.cc |  5 +++++
 src/sw_models/WeightedIncrNormSlm.cc  |  7 ++++++-
 src/sw_models/_incrHmmAligModel.cc    | 12 ++++++++++++
 src/sw_models/_incrHmmP0AligModel.cc  |  6 ++++++
 src/sw_models/anjiMatrix.cc           | 12 ++++++++++++
 src/sw_models/anjm1ip_anjiMatrix.cc   | 12 ++++++++++++
 18 files changed, 163 insertions(+), 7 deletions(-)

diff --git a/src/incr_models/_incrJelMerNgramLM.h b/src/incr_models/_incrJelMerNgramLM.h
index 96f6bce..b94fcd3 100644
--- a/src/incr_models/_incrJelMerNgramLM.h
+++ b/src/incr_models/_incrJelMerNgramLM.h
@@ -447,7 +447,14 @@ bool _incrJelMerNgramLM<SRC_INFO,SRCTRG_INFO>::printWeights(const char *prefixOf
     fprintf(filePtr,"%f ",weights[i]);
   }
   fprintf(filePtr,"\n");
-  fclose(filePtr);
+  bool writeError=(ferror(filePtr)!=0);
+  if(fclose(filePtr)!=0)
+    writeError=true;
+  if(writeError)
+  {
+    std::cerr<<"Error while printing file with lm weights ("<<weightFileName<<")"<<std::endl;
+    return THOT_ERROR;
+  }
 
   return THOT_OK;
 }  
diff --git a/src/incr_models/_incrNgramLM.h b/src/incr_models/_incrNgramLM.h
index 35118da..b9ddc44 100644
--- a/src/incr_models/_incrNgramLM.h
+++ b/src/incr_models/_incrNgramLM.h
@@ -543,7 +543,12 @@ bool _incrNgramLM<SRC_INFO,SRCTRG_INFO>::print(const char *fileName)
   else
   {
     print(outF);
-    outF.close();	
+    outF.close();
+    if(outF.fail())
+    {
+      std::cerr<<"Error while printing model to file."<<std::endl;
+      return THOT_ERROR;
+    }
     return THOT_OK;
   }
 }
diff --git a/src/incr_models/vecx_x_incr_ecpm.h b/src/incr_models/vecx_x_incr_ecpm.h
index 5be386d..9ee502d 100644
--- a/src/incr_models/vecx_x_incr_ecpm.h
+++ b/src/incr_models/vecx_x_incr_ecpm.h
@@ -139,7 +139,12 @@ bool vecx_x_incr_ecpm<HX,X,SRC_INFO,SRCTRG_INFO>::print(const char *fileName)
   else
   {
     print(outF);
-    outF.close();	
+    outF.close();
+    if(outF.fail())
+    {
+      std::cerr<<"Error while printing model to file."<<std::endl;
+      return THOT_ERROR;
+    }
     return THOT_OK;
   }
 }
diff --git a/src/incr_models/vecx_x_incr_enc.h b/src/incr_models/vecx_x_incr_enc.h
index 8f5650e..b153d81 100644
--- a/src/incr_models/vecx_x_incr_enc.h
+++ b/src/incr_models/vecx_x_incr_enc.h
@@ -325,6 +325,12 @@ bool vecx_x_incr_enc<HX,X>::print(const char *prefixFileName)
       ofile<<iter->first<<" "<<iter->second<<std::endl;
     }
     
+    ofile.close();
+    if(ofile.fail())
+    {
+      std::cerr<< "Error while printing target vocabulary file "<<prefixFileName<<std::endl;
+      return THOT_ERROR;
+    }
     return THOT_OK;
   }  
 }
diff --git a/src/nlp_common/SingleWordVocab.cc b/src/nlp_common/SingleWordVocab.cc
index f808f81..cf1cda4 100644
--- a/src/nlp_common/SingleWordVocab.cc
+++ b/src/nlp_common/SingleWordVocab.cc
@@ -192,6 +192,11 @@ bool SingleWordVocab::printGIZASrcVocab(const char *outputFileName)
  }
  outF<<stringToSrcWordIndexMap;
  outF.close();
+ if(outF.fail())
+ {
+   std::cerr<<"Error while printing source vocabulary."<<std::endl;
+   return THOT_ERROR;
+ }
  return THOT_OK;
 }
 
@@ -342,6 +347,11 @@ bool SingleWordVocab::printGIZATrgVocab(const char *outputFileName)
  }
  outF<<stringToTrgWordIndexMap;
  outF.close();
+ if(outF.fail())
+ {
+   std::cerr<<"Error while printing target vocabulary."<<std::endl;
+   return THOT_ERROR;
+ }
  return THOT_OK;
 }
 
diff --git a/src/phrase_models/_incrPhraseModel.cc b/src/phrase_models/_incrPhraseModel.cc
index 8eddacd..2fdaa31 100644
--- a/src/phrase_models/_incrPhraseModel.cc
+++ b/src/phrase_models/_incrPhraseModel.cc
@@ -448,6 +448,14 @@ bool _incrPhraseModel::printTTable(const char *outputFileName)
   else
   {
     printTTable(outf);
+    bool writeError=(ferror(outf)!=0);
+    if(fclose(outf)!=0)
+      writeError=true;
+    if(writeError)
+    {
+      std::cerr<<"Error while printing phrase model to file."<<std::endl;
+      return THOT_ERROR;
+    }
     return THOT_OK;
   }
 }
@@ -465,8 +473,13 @@ bool _incrPhraseModel::printSegmLengthTable(const char *outputFileName)
  }
 
  printSegmLengthTable(outF);	
- outF.close();	
 
+ outF.close();
+ if(outF.fail())
+ {
+   std::cerr<<"Error while printing segmentation length table."<<std::endl;
+   return THOT_ERROR;
+ }
  return THOT_OK;
 }
 
diff --git a/src/stack_dec/PhrLocalSwLiTm.cc b/src/stack_dec/PhrLocalSwLiTm.cc
index 418c3d4..47e6a28 100644
--- a/src/stack_dec/PhrLocalSwLiTm.cc
+++ b/src/stack_dec/PhrLocalSwLiTm.cc
@@ -1161,7 +1161,12 @@ bool PhrLocalSwLiTm::print_lambdas(const char* lambdaFileName)
   else
   {
     print_lambdas(outF);
-    outF.close();	
+    outF.close();
+    if(outF.fail())
+    {
+      std::cerr<<"Error while printing file with lambda values."<<std::endl;
+      return THOT_ERROR;
+    }
     return THOT_OK;
   }   
 }
diff --git a/src/stack_dec/SmtModelUtils.cc b/src/stack_dec/SmtModelUtils.cc
index 2ae993e..ba3ba5d 100644
--- a/src/stack_dec/SmtModelUtils.cc
+++ b/src/stack_dec/SmtModelUtils.cc
@@ -195,7 +195,12 @@ namespace SmtModelUtils
     else
     {
       outF<<lambda_swm<<" "<<lambda_invswm<<std::endl;
-      outF.close();	
+      outF.close();
+      if(outF.fail())
+      {
+        std::cerr<<"Error while printing file with lambda values."<<std::endl;
+        return THOT_ERROR;
+      }
       return THOT_OK;
     }
   }
diff --git a/src/sw_models/IncrHmmAligTable.cc b/src/sw_models/IncrHmmAligTable.cc
index 74ecead..a6931f2 100644
--- a/src/sw_models/IncrHmmAligTable.cc
+++ b/src/sw_models/IncrHmmAligTable.cc
@@ -259,6 +259,12 @@ bool IncrHmmAligTable::printBin(const char* aligNumDenFile)
         }
       }      
     }
+    outF.close();
+    if(outF.fail())
+    {
+      std::cerr<<"Error while printing alignment nd file."<<std::endl;
+      return THOT_ERROR;
+    }
     return THOT_OK;
   }
 }
@@ -298,6 +304,12 @@ bool IncrHmmAligTable::printPlainText(const char* aligNumDenFile)
         }
       }      
     }
+    outF.close();
+    if(outF.fail())
+    {
+      std::cerr<<"Error while printing alignment nd file."<<std::endl;
+      return THOT_ERROR;
+    }
     return THOT_OK;
   }
 }
diff --git a/src/sw_models/IncrIbm2AligTable.cc b/src/sw_models/IncrIbm2AligTable.cc
index 9a5d944..ab8211a 100644
--- a/src/sw_models/IncrIbm2AligTable.cc
+++ b/src/sw_models/IncrIbm2AligTable.cc
@@ -237,6 +237,12 @@ bool IncrIbm2AligTable::printPlainText(const char* aligNumDenFile)
         outF<<denom<<std::endl;
       }
     }
+    outF.close();
+    if(outF.fail())
+    {
+      std::cerr<<"Error while printing alignment nd file."<<std::endl;
+      return THOT_ERROR;
+    }
     return THOT_OK;
   }  
 }
@@ -269,6 +275,12 @@ bool IncrIbm2AligTable::printBin(const char* aligNumDenFile)
         outF.write((char*)&denom,sizeof(float));
       }
     }
+    outF.close();
+    if(outF.fail())
+    {
+      std::cerr<<"Error while printing alignment nd file."<<std::endl;
+      return THOT_ERROR;
+    }
     return THOT_OK;
   }
 }
diff --git a/src/sw_models/IncrLexLevelDbTable.cc b/src/sw_models/IncrLexLevelDbTable.cc
index acbbadf..8607781 100644
--- a/src/sw_models/IncrLexLevelDbTable.cc
+++ b/src/sw_models/IncrLexLevelDbTable.cc
@@ -459,6 +459,12 @@ bool IncrLexLevelDbTable::printBin(const char* lexNumDenFile)
 
         delete it;
 
+        outF.close();
+        if(outF.fail())
+        {
+            std::cerr << "Error while printing lexical nd file." << std::endl;
+            return THOT_ERROR;
+        }
         return THOT_OK;
     }
 }
@@ -510,6 +516,12 @@ bool IncrLexLevelDbTable::printPlainText(const char* lexNumDenFile)
 
         delete it;
 
+        outF.close();
+        if(outF.fail())
+        {
+            std::cerr << "Error while printing lexical nd file." << std::endl;
+            return THOT_ERROR;
+        }
         return THOT_OK;
     }
 }
diff --git a/src/sw_models/IncrLexTable.cc b/src/sw_models/IncrLexTable.cc
index d7b1e42..98cd481 100644
--- a/src/sw_models/IncrLexTable.cc
+++ b/src/sw_models/IncrLexTable.cc
@@ -251,6 +251,12 @@ bool IncrLexTable::printBin(const char* lexNumDenFile)
         outF.write((char*)&denom,sizeof(float));
       }
     }
+    outF.close();
+    if(outF.fail())
+    {
+      std::cerr<<"Error while printing lexical nd file."<<std::endl;
+      return THOT_ERROR;
+    }
     return THOT_OK;
   }
 }
@@ -281,6 +287,12 @@ bool IncrLexTable::printPlainText(const char* lexNumDenFile)
         outF<<denom<<std::endl;;
       }
     }
+    outF.close();
+    if(outF.fail())
+    {
+      std::cerr<<"Error while printing lexical nd file."<<std::endl;
+      return THOT_ERROR;
+    }
     return THOT_OK;
   }
 }
diff --git a/src/sw_models/LightSentenceHandler.cc b/src/sw_models/LightSentenceHandler.cc
index 525f6a1..520c6be 100644
--- a/src/sw_models/LightSentenceHandler.cc
+++ b/src/sw_models/LightSentenceHandler.cc
@@ -361,6 +361,11 @@ bool LightSentenceHandler::printSentPairs(const char *srcSentFile,
   srcOutF.close();
   trgOutF.close();
   countsOutF.close();
+  if(srcOutF.fail() || trgOutF.fail() || countsOutF.fail())
+  {
+    std::cerr<<"Error while printing sentence pairs."<<std::endl;
+    return THOT_ERROR;
+  }
   
   return THOT_OK;
 }
diff --git a/src/sw_models/WeightedIncrNormSlm.cc b/src/sw_models/WeightedIncrNormSlm.cc
index 79669ad..dec596b 100644
--- a/src/sw_models/WeightedIncrNormSlm.cc
+++ b/src/sw_models/WeightedIncrNormSlm.cc
@@ -82,7 +82,12 @@ bool WeightedIncrNormSlm::print(const char* filename)
   else
   {
     print(outF);
-    outF.close();	
+    outF.close();
+    if(outF.fail())
+    {
+      std::cerr<<"Error while printing sentence length model."<<std::endl;
+      return THOT_ERROR;
+    }
     return THOT_OK;
   }   
 }
diff --git a/src/sw_models/_incrHmmAligModel.cc b/src/sw_models/_incrHmmAligModel.cc
index b8198d8..ca06a26 100644
--- a/src/sw_models/_incrHmmAligModel.cc
+++ b/src/sw_models/_incrHmmAligModel.cc
@@ -457,6 +457,12 @@ bool _incrHmmAligModel::printLexSmIntFactor(const char* lexSmIntFactorFile)
   else
   {
     outF<<lexSmoothInterpFactor<<std::endl;
+    outF.close();
+    if(outF.fail())
+    {
+      std::cerr<<"Error while printing file with lexical smoothing interpolation factor."<<std::endl;
+      return THOT_ERROR;
+    }
     return THOT_OK;
   }
 }
@@ -510,6 +516,12 @@ bool _incrHmmAligModel::printAlSmIntFactor(const char* alSmIntFactorFile)
   else
   {
     outF<<aligSmoothInterpFactor<<std::endl;
+    outF.close();
+    if(outF.fail())
+    {
+      std::cerr<<"Error while printing file with alignment smoothing interpolation factor."<<std::endl;
+      return THOT_ERROR;
+    }
     return THOT_OK;
   }
 }
diff --git a/src/sw_models/_incrHmmP0AligModel.cc b/src/sw_models/_incrHmmP0AligModel.cc
index 452d0ed..d50327d 100644
--- a/src/sw_models/_incrHmmP0AligModel.cc
+++ b/src/sw_models/_incrHmmP0AligModel.cc
@@ -127,6 +127,12 @@ bool _incrHmmP0AligModel::printHmmP0(const char *hmmP0FileName)
   else
   {
     outF<<hmm_p0<<std::endl;
+    outF.close();
+    if(outF.fail())
+    {
+      std::cerr<<"Error while printing file with hmm p0 value."<<std::endl;
+      return THOT_ERROR;
+    }
     return THOT_OK;
   }
 }
diff --git a/src/sw_models/anjiMatrix.cc b/src/sw_models/anjiMatrix.cc
index de2f08f..0730993 100644
--- a/src/sw_models/anjiMatrix.cc
+++ b/src/sw_models/anjiMatrix.cc
@@ -289,6 +289,12 @@ bool anjiMatrix::print_anji_values(const char* anjiFile)
         }
       }
     }
+    outF.close();
+    if(outF.fail())
+    {
+      std::cerr<<"Error while printing anji file."<<std::endl;
+      return THOT_ERROR;
+    }
     return THOT_OK;
   }
 }
@@ -315,6 +321,12 @@ bool anjiMatrix::print_maxnsize_data(const char* maxnsizeDataFile)
       if(np_to_n_vector[np].first)
         outF<<np<<" "<<np_to_n_vector[np].second<<std::endl;
     }
+    outF.close();
+    if(outF.fail())
+    {
+      std::cerr<<"Error while printing file with anji maximum size data."<<std::endl;
+      return THOT_ERROR;
+    }
     return THOT_OK;
   }  
 }
diff --git a/src/sw_models/anjm1ip_anjiMatrix.cc b/src/sw_models/anjm1ip_anjiMatrix.cc
index 5326a2e..214ceee 100644
--- a/src/sw_models/anjm1ip_anjiMatrix.cc
+++ b/src/sw_models/anjm1ip_anjiMatrix.cc
@@ -547,6 +547,12 @@ bool anjm1ip_anjiMatrix::print_matrix_values(const char* matrixFile)
         }
       }
     }
+    outF.close();
+    if(outF.fail())
+    {
+      std::cerr<<"Error while printing anji file."<<std::endl;
+      return THOT_ERROR;
+    }
     return THOT_OK;
   }
 }
@@ -573,6 +579,12 @@ bool anjm1ip_anjiMatrix::print_maxnsize_data(const char* maxnsizeDataFile)
       if(np_to_n_vector[np].first)
         outF<<np<<" "<<np_to_n_vector[np].second<<std::endl;
     }
+    outF.close();
+    if(outF.fail())
+    {
+      std::cerr<<"Error while printing file with anji maximum size data."<<std::endl;
+      return THOT_ERROR;
+    }
     return THOT_OK;
   }  
 }
-- 
2.43.0


From 1e3600c2bd351de7a1a70d5e801f128e68d4fb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:59 +0000
Subject: [PATCH 09/61] fix: disable pre/pos-processing when the requested one
 does not exist

---
 src/stack_dec/ThotDecoder.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stack_dec/ThotDecoder.cc b/src/stack_dec/ThotDecoder.cc
index a03f61f..ae25924 100644
--- a/src/stack_dec/ThotDecoder.cc
+++ b/src/stack_dec/ThotDecoder.cc
@@ -1408,6 +1408,7 @@ void ThotDecoder::set_preproc(int user_id,
       break;
 #endif
     default: tdPerUserVarsVec[idx].prePosProcessorPtr=0;
+      tdState.preprocId=DISABLE_PREPROC;
       if(verbose)
         StdCerrThreadSafe<<"user_id: "<<user_id<<", warning! invalid preprocId, the pre/pos-processing steps are disabled"<<std::endl;
       break;
-- 
2.43.0


From 18bdd2c9f84016462b0d564d633d4076eb90b817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:42 +0000
Subject: [PATCH 10/61] fix: accept sentences without words when obtaining
 translation constraints

---
 src/stack_dec/TranslationMetadata.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/stack_dec/TranslationMetadata.h b/src/stack_dec/TranslationMetadata.h
index 7525073..a3ce93f 100644
--- a/src/stack_dec/TranslationMetadata.h
+++ b/src/stack_dec/TranslationMetadata.h
@@ -150,8 +150,9 @@ void TranslationMetadata<SCORE_INFO>::obtainTransConstraints(std::string rawSrcS
         // Convert raw source sentence into a string vector
     std::vector<std::string> tokRawSrcSentVec=StrProcUtils::stringToStringVector(tokRawSrcSent);
 
-        // Scan string vector
-    bool end=false;
+        // Scan string vector (it is empty for sentences only composed
+        // of blanks)
+    bool end=tokRawSrcSentVec.empty();
     unsigned int i=0;
     std::vector<std::string> srcPhrase;
     std::vector<std::string> trgPhrase;
-- 
2.43.0


From de27afb48b1868ac9d3729989313f9431bcf5c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:42 +0000
Subject: [PATCH 11/61] fix: do not process word-graphs that the translator is
 modifying

---
 src/stack_dec/WgUncoupledAssistedTrans.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/stack_dec/WgUncoupledAssistedTrans.h b/src/stack_dec/WgUncoupledAssistedTrans.h
index 6ff1c84..1f47d60 100644
--- a/src/stack_dec/WgUncoupledAssistedTrans.h
+++ b/src/stack_dec/WgUncoupledAssistedTrans.h
@@ -109,9 +109,9 @@ class WgUncoupledAssistedTrans: public _assistedTrans<SMT_MODEL>
   BaseWgProcessorForAnlp* wgp_ptr;  // Pointer to a word-graph
                                     // processor
 
-  WordGraph* wg_ptr;  // Pointer to word-graph. It is required only when
-                      // the word-graph is obtained from the word-graph
-                      // handler
+  WordGraph* wg_ptr;  // Pointer to the word-graph used to generate the
+                      // suffixes. It is obtained from the word-graph
+                      // handler or from the translator
   
   WgHandler* wgh_ptr; // Pointer to a word-graph handler
   
@@ -334,8 +334,12 @@ WgUncoupledAssistedTrans<SMT_MODEL>::obtainWgUsingTranslator(std::string s,
 
       // Set flag
   completeHypReachable=smtm_ptr->isComplete(hyp);
-  
-  return sdr_ptr->getWordGraphPtr();
+
+      // Keep a copy of the word-graph, since that of the translator is
+      // modified when other sentences are translated
+  *wg_ptr=*sdr_ptr->getWordGraphPtr();
+
+  return wg_ptr;
 }
 
 //---------------------------------
-- 
2.43.0


From e250858697dbc7c235e1749be85341fc9d784083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:15 +0000
Subject: [PATCH 12/61] fix: print whole lines from the threads of the server

---
 src/error_correction/BaseErrorCorrectionModel.cc | 3 ++-
 src/error_correction/WgProcessorForAnlp.h        | 3 ++-
 src/stack_dec/ThotDecoder.cc                     | 7 ++++---
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/error_correction/BaseErrorCorrectionModel.cc b/src/error_correction/BaseErrorCorrectionModel.cc
index 65f3e63..e121568 100644
--- a/src/error_correction/BaseErrorCorrectionModel.cc
+++ b/src/error_correction/BaseErrorCorrectionModel.cc
@@ -25,6 +25,7 @@ along with this program; If not, see <http://www.gnu.org/licenses/>.
 //--------------- Include files --------------------------------------
 
 #include "BaseErrorCorrectionModel.h"
+#include <StdCerrThreadSafePrint.h>
 
 //--------------- BaseErrorCorrectionModel template class method definitions
 
@@ -33,6 +34,6 @@ int BaseErrorCorrectionModel::trainStrPair(const char* /*x*/,
                                            const char* /*y*/,
                                            int /*verbose*/)
 {
-  std::cerr<<"Warning: training of a string pair was requested, but such functionality is not provided!"<<std::endl;
+  StdCerrThreadSafe<<"Warning: training of a string pair was requested, but such functionality is not provided!"<<std::endl;
   return THOT_OK;
 }
diff --git a/src/error_correction/WgProcessorForAnlp.h b/src/error_correction/WgProcessorForAnlp.h
index d26e9c5..025c09e 100644
--- a/src/error_correction/WgProcessorForAnlp.h
+++ b/src/error_correction/WgProcessorForAnlp.h
@@ -34,6 +34,7 @@ along with this program; If not, see <http://www.gnu.org/licenses/>.
 #endif /* HAVE_CONFIG_H */
 
 #include <ctimer.h>
+#include <StdCerrThreadSafePrint.h>
 #include <StrProcUtils.h>
 #include <map>
 #include <set>
@@ -289,7 +290,7 @@ WgProcessorForAnlp<ECM_FOR_WG>::correct(std::string prefix,
   if(wg_ptr==NULL || wg_ptr->empty())
   {
         // Word graph empty
-    std::cerr<<"Word-graph proccessor error: word-graph is empty!"<<std::endl;
+    StdCerrThreadSafe<<"Word-graph proccessor error: word-graph is empty!"<<std::endl;
     NbestCorrections nbestCorrections;
     return nbestCorrections;
   }
diff --git a/src/stack_dec/ThotDecoder.cc b/src/stack_dec/ThotDecoder.cc
index ae25924..b00d638 100644
--- a/src/stack_dec/ThotDecoder.cc
+++ b/src/stack_dec/ThotDecoder.cc
@@ -1456,9 +1456,10 @@ void ThotDecoder::set_catw(int user_id,
     
   if(verbose)
   {
-    StdCerrThreadSafe<<"user_id: "<<user_id<<", ";
-    tdPerUserVarsVec[idx].assistedTransPtr->printWeights(StdCerrThreadSafe);
-    StdCerrThreadSafe<<std::endl;
+        // Print the whole line at once, other threads may be printing
+    std::ostringstream weights;
+    tdPerUserVarsVec[idx].assistedTransPtr->printWeights(weights);
+    StdCerrThreadSafe<<"user_id: "<<user_id<<", "<<weights.str()<<std::endl;
   }
 }
 
-- 
2.43.0


From 254564fdbfe8b7e7576bb3e43442e7bc1e4499f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:03 +0000
Subject: [PATCH 13/61] fix: do not train with sentences that have no words

---
 src/stack_dec/ThotDecoder.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stack_dec/ThotDecoder.cc b/src/stack_dec/ThotDecoder.cc
index b00d638..15471f7 100644
--- a/src/stack_dec/ThotDecoder.cc
+++ b/src/stack_dec/ThotDecoder.cc
@@ -1900,8 +1900,8 @@ int ThotDecoder::onlineTrainSentPair(int user_id,
   int ret;
   bool printTid=threadIdShouldBePrinted(verbose);
   
-      // Check if input sentences are empty
-  if(strlen(srcSent)==0 || strlen(refSent)==0)
+      // Check if input sentences are empty (or do not contain any word)
+  if(srcSent[strspn(srcSent," \t\n")]==0 || refSent[strspn(refSent," \t\n")]==0)
   {
     StdCerrThreadSafeCond(printTid)<<"Error: one or both of the input sentences to be trained are empty"<<std::endl;
     return THOT_ERROR;
-- 
2.43.0


From 5b1d4a16b4f0df86aca6b50f2cec2d32a7849583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:59 +0000
Subject: [PATCH 14/61] fix: do not remove the lexical table when its binary
 file cannot be read

---
 src/sw_models/IncrLexLevelDbTable.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sw_models/IncrLexLevelDbTable.cc b/src/sw_models/IncrLexLevelDbTable.cc
index 8607781..6a0cec4 100644
--- a/src/sw_models/IncrLexLevelDbTable.cc
+++ b/src/sw_models/IncrLexLevelDbTable.cc
@@ -333,9 +333,6 @@ bool IncrLexLevelDbTable::loadBin(const char* lexNumDenFile)
         db = NULL;
     }
 
-    // Prepare new DB
-    init(prefixFile.c_str());
-
     std::cerr << "Loading lexnd in LevelDB format from binary file in " << binFile << std::endl;
 
     std::ifstream inF (binFile.c_str(), std::ios::in | std::ios::binary);
@@ -346,6 +343,10 @@ bool IncrLexLevelDbTable::loadBin(const char* lexNumDenFile)
         return THOT_ERROR;
     }
 
+    // Prepare new DB (only now, so as not to remove an existing one in vain)
+    if(init(prefixFile.c_str()) == THOT_ERROR)
+        return THOT_ERROR;
+
     // Read data stored in binary file and insert them to LevelDB
     bool end = false;
     while(!end)
-- 
2.43.0


From b7afe5b07cd4598d9c402860a05b70acfa286cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:29 +0000
Subject: [PATCH 15/61] fix: report errors storing data in the conversion tools
 to LevelDB

---
 src/incr_models/LevelDbNgramTable.cc        |  4 ++++
 src/incr_models/LevelDbNgramTable.h         |  3 +++
 src/incr_models/thot_ngram_to_leveldb.cc    | 18 +++++++++++++++---
 src/phrase_models/LevelDbPhraseTable.cc     |  4 ++++
 src/phrase_models/LevelDbPhraseTable.h      |  3 +++
 src/phrase_models/thot_ttable_to_leveldb.cc |  6 ++++++
 src/stack_dec/LevelDbDict.cc                |  4 ++++
 src/stack_dec/LevelDbDict.h                 |  3 +++
 src/stack_dec/thot_dict_to_leveldb.cc       |  6 ++++++
 src/sw_models/IncrLexLevelDbTable.cc        |  4 ++++
 src/sw_models/IncrLexLevelDbTable.h         |  3 +++
 src/sw_models/thot_lextable_to_leveldb.cc   | 12 +++++++++++-
 12 files changed, 66 insertions(+), 4 deletions(-)

diff --git a/src/incr_models/LevelDbNgramTable.cc b/src/incr_models/LevelDbNgramTable.cc
index 2faca8a..7f1a8e7 100644
--- a/src/incr_models/LevelDbNgramTable.cc
+++ b/src/incr_models/LevelDbNgramTable.cc
@@ -37,6 +37,7 @@ LevelDbNgramTable::LevelDbNgramTable(void)
     options.block_cache = leveldb::NewLRUCache(100 * 1048576);  // 100 MB for cache
     db = NULL;
     dbName = "";
+    storeErrorFound = false;
     // Key for null info - use the maximum allowed value as the key
     std::vector<WordIndex> null_vec;
     for (unsigned int i = 0; i < WORD_INDEX_MODULO_BYTES; i++)
@@ -158,7 +159,10 @@ bool LevelDbNgramTable::storeData(const std::string key, float count)
     leveldb::Status s = db->Write(leveldb::WriteOptions(), &batch);
 
     if(!s.ok())
+    {
         std::cerr << "Storing data status: " << s.ToString() << std::endl;
+        storeErrorFound = true;
+    }
 
     return s.ok();
 }
diff --git a/src/incr_models/LevelDbNgramTable.h b/src/incr_models/LevelDbNgramTable.h
index 5452705..a627fe2 100644
--- a/src/incr_models/LevelDbNgramTable.h
+++ b/src/incr_models/LevelDbNgramTable.h
@@ -63,6 +63,7 @@ class LevelDbNgramTable: public BaseIncrCondProbTable<std::vector<WordIndex>, Wo
         leveldb::DB* db;
         leveldb::Options options;
         std::string dbName;
+        mutable bool storeErrorFound;  // an entry could not be stored
         std::string dbNullKey;
 
             // Converters
@@ -136,6 +137,8 @@ class LevelDbNgramTable: public BaseIncrCondProbTable<std::vector<WordIndex>, Wo
           // Size, clear, print functions
         size_t size(void);
         void clear(void);
+            // Returns true if any entry could not be stored
+        bool storeErrors(void)const { return storeErrorFound; }
         void print(bool printString = true);
 
           // Destructor
diff --git a/src/incr_models/thot_ngram_to_leveldb.cc b/src/incr_models/thot_ngram_to_leveldb.cc
index 65fea42..373743a 100644
--- a/src/incr_models/thot_ngram_to_leveldb.cc
+++ b/src/incr_models/thot_ngram_to_leveldb.cc
@@ -64,7 +64,7 @@ int main(int argc, char *argv[])
 }
 
 //---------------
-void saveVocabulary(std::map<std::string, WordIndex>& vocab)
+int saveVocabulary(std::map<std::string, WordIndex>& vocab)
 {
     // Save vocabulary
     std::ofstream vocabFile;
@@ -77,6 +77,8 @@ void saveVocabulary(std::map<std::string, WordIndex>& vocab)
     }
         
     vocabFile.close();
+
+    return vocabFile ? THOT_OK : THOT_ERROR;
 }
 
 //---------------
@@ -177,8 +179,18 @@ int process_ttable(void)
         std::cerr << "levelDB size: " << levelDbNt.size() << std::endl;
 
         // Save vocabulary
-        saveVocabulary(vocab);
-        
+        if (saveVocabulary(vocab) == THOT_ERROR)
+        {
+            std::cerr << "Error while writing the vocabulary file" << std::endl;
+            return THOT_ERROR;
+        }
+
+        if (levelDbNt.storeErrors())
+        {
+            std::cerr << "Error while storing data in the database (LevelDB)" << std::endl;
+            return THOT_ERROR;
+        }
+
         return THOT_OK;
     }
 }
diff --git a/src/phrase_models/LevelDbPhraseTable.cc b/src/phrase_models/LevelDbPhraseTable.cc
index c50a7a0..1bbc091 100644
--- a/src/phrase_models/LevelDbPhraseTable.cc
+++ b/src/phrase_models/LevelDbPhraseTable.cc
@@ -36,6 +36,7 @@ LevelDbPhraseTable::LevelDbPhraseTable(void)
     options.block_cache = leveldb::NewLRUCache(100 * 1048576);  // 100 MB for cache
     db = NULL;
     dbName = "";
+    storeErrorFound = false;
 }
 
 //-------------------------
@@ -113,7 +114,10 @@ bool LevelDbPhraseTable::storeData(const std::vector<WordIndex>& phrase, int cou
     leveldb::Status s = db->Write(leveldb::WriteOptions(), &batch);
 
     if(!s.ok())
+    {
         std::cerr << "Storing data status: " << s.ToString() << std::endl;
+        storeErrorFound = true;
+    }
 
     return s.ok();
 }
diff --git a/src/phrase_models/LevelDbPhraseTable.h b/src/phrase_models/LevelDbPhraseTable.h
index ed817fa..a0ae675 100644
--- a/src/phrase_models/LevelDbPhraseTable.h
+++ b/src/phrase_models/LevelDbPhraseTable.h
@@ -64,6 +64,7 @@ class LevelDbPhraseTable: public BasePhraseTable
     leveldb::DB* db;
     leveldb::Options options;
     std::string dbName;
+    mutable bool storeErrorFound;  // an entry could not be stored
 
         // Converters
     virtual std::string vectorToString(const std::vector<WordIndex>& vec)const;
@@ -161,6 +162,8 @@ class LevelDbPhraseTable: public BasePhraseTable
     virtual size_t size(void);
     virtual void print(bool printString = true);
     virtual void clear(void);
+        // Returns true if any entry could not be stored
+    bool storeErrors(void)const { return storeErrorFound; }
 
         // Destructor
     virtual ~LevelDbPhraseTable();
diff --git a/src/phrase_models/thot_ttable_to_leveldb.cc b/src/phrase_models/thot_ttable_to_leveldb.cc
index 3927899..cd97b81 100644
--- a/src/phrase_models/thot_ttable_to_leveldb.cc
+++ b/src/phrase_models/thot_ttable_to_leveldb.cc
@@ -149,6 +149,12 @@ int process_ttable(void)
 
     std::cerr << "levelDB size: " << levelDbPt.size() << std::endl;
     
+    if(levelDbPt.storeErrors())
+    {
+      std::cerr << "Error while storing data in the database (LevelDB)" << std::endl;
+      return THOT_ERROR;
+    }
+
     return THOT_OK;
   }
 }
diff --git a/src/stack_dec/LevelDbDict.cc b/src/stack_dec/LevelDbDict.cc
index 4ec31f0..2f3c001 100644
--- a/src/stack_dec/LevelDbDict.cc
+++ b/src/stack_dec/LevelDbDict.cc
@@ -36,6 +36,7 @@ LevelDbDict::LevelDbDict(void)
     options.block_cache = leveldb::NewLRUCache(100 * 1048576);  // 100 MB for cache
     db = NULL;
     dbName = "";
+    storeErrorFound = false;
 }
 
 //-------------------------
@@ -70,7 +71,10 @@ bool LevelDbDict::storeData(const std::vector<std::string>& phrase, Score score)
     leveldb::Status s = db->Write(leveldb::WriteOptions(), &batch);
 
     if(!s.ok())
+    {
         std::cerr << "Storing data status: " << s.ToString() << std::endl;
+        storeErrorFound = true;
+    }
 
     return s.ok();
 }
diff --git a/src/stack_dec/LevelDbDict.h b/src/stack_dec/LevelDbDict.h
index 970358c..213273f 100644
--- a/src/stack_dec/LevelDbDict.h
+++ b/src/stack_dec/LevelDbDict.h
@@ -67,6 +67,7 @@ class LevelDbDict
     leveldb::DB* db;
     leveldb::Options options;
     std::string dbName;
+    mutable bool storeErrorFound;  // an entry could not be stored
 
         // Read and write data
     virtual bool retrieveData(const std::vector<std::string>& phrase, Score &score)const;
@@ -104,6 +105,8 @@ class LevelDbDict
         // size and clear functions
     virtual size_t size(void);
     virtual void clear(void);
+        // Returns true if any entry could not be stored
+    bool storeErrors(void)const { return storeErrorFound; }
 
         // Destructor
     virtual ~LevelDbDict();
diff --git a/src/stack_dec/thot_dict_to_leveldb.cc b/src/stack_dec/thot_dict_to_leveldb.cc
index 6a55615..92cb7ff 100644
--- a/src/stack_dec/thot_dict_to_leveldb.cc
+++ b/src/stack_dec/thot_dict_to_leveldb.cc
@@ -148,6 +148,12 @@ int process_ttable(void)
 
     std::cerr << "levelDB size: " << levelDbDict.size() << std::endl;
     
+    if(levelDbDict.storeErrors())
+    {
+      std::cerr << "Error while storing data in the database (LevelDB)" << std::endl;
+      return THOT_ERROR;
+    }
+
     return THOT_OK;
   }
 }
diff --git a/src/sw_models/IncrLexLevelDbTable.cc b/src/sw_models/IncrLexLevelDbTable.cc
index 6a0cec4..bd62b92 100644
--- a/src/sw_models/IncrLexLevelDbTable.cc
+++ b/src/sw_models/IncrLexLevelDbTable.cc
@@ -41,6 +41,7 @@ IncrLexLevelDbTable::IncrLexLevelDbTable(void)
     options.block_cache = leveldb::NewLRUCache(10 * 1048576);  // 10 MB for cache
     db = NULL;
     dbName = "";
+    storeErrorFound = false;
 }
 
 //-------------------------
@@ -200,7 +201,10 @@ bool IncrLexLevelDbTable::storeData(const std::vector<WordIndex>& phrase, float
     leveldb::Status s = db->Write(leveldb::WriteOptions(), &batch);
 
     if(!s.ok())
+    {
         std::cerr << "Storing data status: " << s.ToString() << std::endl;
+        storeErrorFound = true;
+    }
 
     return s.ok();
 }
diff --git a/src/sw_models/IncrLexLevelDbTable.h b/src/sw_models/IncrLexLevelDbTable.h
index 63c8935..7568e69 100644
--- a/src/sw_models/IncrLexLevelDbTable.h
+++ b/src/sw_models/IncrLexLevelDbTable.h
@@ -71,6 +71,7 @@ class IncrLexLevelDbTable : public _incrLexTable
     leveldb::DB* db;
     leveldb::Options options;
     std::string dbName;
+    mutable bool storeErrorFound;  // an entry could not be stored
 
         // Converters
     std::string vectorToString(const std::vector<WordIndex>& vec)const;
@@ -134,6 +135,8 @@ class IncrLexLevelDbTable : public _incrLexTable
 
             // clear() function
         void clear(void);
+            // Returns true if any entry could not be stored
+        bool storeErrors(void)const { return storeErrorFound; }
 };
 
 #endif
diff --git a/src/sw_models/thot_lextable_to_leveldb.cc b/src/sw_models/thot_lextable_to_leveldb.cc
index 5c657a1..9bff03b 100644
--- a/src/sw_models/thot_lextable_to_leveldb.cc
+++ b/src/sw_models/thot_lextable_to_leveldb.cc
@@ -58,7 +58,11 @@ int main(int argc, char *argv[])
 int convert()
 {
     IncrLexLevelDbTable lexTable;
-    lexTable.init(outputPath.c_str());
+    if(lexTable.init(outputPath.c_str()) == THOT_ERROR)
+    {
+        std::cerr << "Cannot create or recreate database (LevelDB)" << std::endl;
+        return THOT_ERROR;
+    }
 
     std::ifstream inF (inputFile.c_str(), std::ios::in | std::ios::binary);
     if (!inF)
@@ -86,6 +90,12 @@ int convert()
             else end = true;
         }
 
+        if(lexTable.storeErrors())
+        {
+            std::cerr << "Error while storing data in the database (LevelDB)" << std::endl;
+            return THOT_ERROR;
+        }
+
         return THOT_OK;
     }
 }
-- 
2.43.0


From 3efe18e63ea1864967b96ef07c279e7179fdfa8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:45 +0000
Subject: [PATCH 16/61] fix: save the models of a descriptor even if it cannot
 be read again

---
 src/stack_dec/StdFeatureHandler.cc | 14 +++++++++++---
 src/stack_dec/StdFeatureHandler.h  |  3 +++
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/stack_dec/StdFeatureHandler.cc b/src/stack_dec/StdFeatureHandler.cc
index 0a381bf..9e9ff10 100644
--- a/src/stack_dec/StdFeatureHandler.cc
+++ b/src/stack_dec/StdFeatureHandler.cc
@@ -102,7 +102,10 @@ int StdFeatureHandler::loadLmFeats(std::string lmFileName,
                                    int verbose)
 {
   if(fileIsDescriptor(lmFileName))
+  {
+    lmDescFileLoaded=lmFileName;
     return process_lm_descriptor(lmFileName,verbose);
+  }
   else
     return process_lm_files_prefix(lmFileName,verbose);
 }
@@ -112,7 +115,10 @@ int StdFeatureHandler::loadTmFeats(std::string tmFilesPrefix,
                                    int verbose)
 {
   if(fileIsDescriptor(tmFilesPrefix))
+  {
+    tmDescFileLoaded=tmFilesPrefix;
     return process_tm_descriptor(tmFilesPrefix,verbose);
+  }
   else
     return process_tm_files_prefix(tmFilesPrefix,verbose);
 }
@@ -1142,7 +1148,7 @@ bool StdFeatureHandler::printLambdasForModel(std::string modelFileName,
 bool StdFeatureHandler::printAligModels(std::string tmFileName,
                                         int verbose/*=0*/)
 {
-  if(fileIsDescriptor(tmFileName))
+  if(tmFileName==tmDescFileLoaded || fileIsDescriptor(tmFileName))
   {
         // Print phrase models
     for(unsigned int i=0;i<phraseModelsInfo.invPbModelPtrVec.size();++i)
@@ -1208,7 +1214,7 @@ bool StdFeatureHandler::printAligModels(std::string tmFileName,
 bool StdFeatureHandler::printAligModelLambdas(std::string tmFileName,
                                               int verbose/*=0*/)
 {
-  if(fileIsDescriptor(tmFileName))
+  if(tmFileName==tmDescFileLoaded || fileIsDescriptor(tmFileName))
   {
         // Print lambda files
     for(unsigned int i=0;i<swModelsInfo.featNameVec.size();++i)
@@ -1236,7 +1242,7 @@ bool StdFeatureHandler::printAligModelLambdas(std::string tmFileName,
 bool StdFeatureHandler::printLangModels(std::string lmFileName,
                                         int /*verbose=0*/)
 {
-  if(fileIsDescriptor(lmFileName))
+  if(lmFileName==lmDescFileLoaded || fileIsDescriptor(lmFileName))
   {
     for(unsigned int i=0;i<langModelsInfo.lModelPtrVec.size();++i)
     {
@@ -1308,6 +1314,7 @@ void StdFeatureHandler::deleteLangModelPtrs(void)
 
       // Clear model descriptor entries
   langModelsInfo.modelDescEntryVec.clear();
+  lmDescFileLoaded.clear();
 
       // Clear feature names
   langModelsInfo.featNameVec.clear();
@@ -1334,6 +1341,7 @@ void StdFeatureHandler::deletePhrModelPtrs(void)
   
       // Clear model descriptor entries
   phraseModelsInfo.modelDescEntryVec.clear();
+  tmDescFileLoaded.clear();
 
       // Clear feature names
   phraseModelsInfo.featNameVec.clear();
diff --git a/src/stack_dec/StdFeatureHandler.h b/src/stack_dec/StdFeatureHandler.h
index ced4957..5539d89 100644
--- a/src/stack_dec/StdFeatureHandler.h
+++ b/src/stack_dec/StdFeatureHandler.h
@@ -124,6 +124,9 @@ class StdFeatureHandler
   SwModelsInfo swModelsInfo;
   PhraseModelsInfo phraseModelsInfo;
   LangModelsInfo langModelsInfo;
+  // Descriptor files used to load the models (empty if not used)
+  std::string tmDescFileLoaded;
+  std::string lmDescFileLoaded;
   WpModelInfo wpModelInfo;
   FeaturesInfo<SmtModel::HypScoreInfo> featuresInfo;
 
-- 
2.43.0


From 08ae6c28de1fe8a01db845c8198ecca5e335f348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:48 +0000
Subject: [PATCH 17/61] fix: report failed writes of word graphs, alignments
 and models

The tools that write files ignored the errors of their output streams and
ended with success although a file was missing or incomplete.
---
 src/error_correction/WordGraph.cc       |  5 ++
 src/error_correction/thot_wg_proc.cc    | 12 ++++
 src/phrase_models/AlignmentExtractor.cc | 84 +++++++++++++++++++++++++
 src/phrase_models/thot_alig_op.cc       | 29 ++++++++-
 src/phrase_models/thot_gen_phr_model.cc |  7 ++-
 src/stack_dec/_stackDecoderRec.h        |  5 ++
 src/stack_dec/thot_ms_alig.cc           | 11 +++-
 src/stack_dec/thot_ms_dec.cc            | 23 ++++++-
 8 files changed, 169 insertions(+), 7 deletions(-)

diff --git a/src/error_correction/WordGraph.cc b/src/error_correction/WordGraph.cc
index 2ddf88c..63a22ae 100644
--- a/src/error_correction/WordGraph.cc
+++ b/src/error_correction/WordGraph.cc
@@ -1341,6 +1341,11 @@ bool WordGraph::print(const char* filename,
   {
     print(outS,printOnlyUsefulStates);
     outS.close();	
+    if(outS.fail())
+    {
+      std::cerr<<"Error while printing recombination graph to file."<<std::endl;
+      return THOT_ERROR;
+    }
     return THOT_OK;
   }
 }
diff --git a/src/error_correction/thot_wg_proc.cc b/src/error_correction/thot_wg_proc.cc
index 7d4f125..3f684e7 100644
--- a/src/error_correction/thot_wg_proc.cc
+++ b/src/error_correction/thot_wg_proc.cc
@@ -286,6 +286,11 @@ int printNbList(const std::vector<std::pair<std::string,float> >& compWeights,
       outS<<" "<<nblist[i].second<<std::endl;
     }
     outS.close();
+    if(outS.fail())
+    {
+      std::cerr<<"Error while printing n-best list file."<<std::endl;
+      return THOT_ERROR;
+    }
     return THOT_OK;
   }
 }
@@ -341,6 +346,13 @@ int process_bp_par(const WordGraph& wordGraph,
     outS<<"Score: "<<bestScore<<std::endl;
         // Print sentence
     outS<<str<<std::endl;
+
+    outS.close();
+    if(outS.fail())
+    {
+      std::cerr<<"Error while printing bp file."<<std::endl;
+      return THOT_ERROR;
+    }
     
     return THOT_OK;
   }  
diff --git a/src/phrase_models/AlignmentExtractor.cc b/src/phrase_models/AlignmentExtractor.cc
index 2a8aac1..d42aa67 100644
--- a/src/phrase_models/AlignmentExtractor.cc
+++ b/src/phrase_models/AlignmentExtractor.cc
@@ -366,6 +366,20 @@ bool AlignmentExtractor::join(const char *GizaAligFileName,
  }
  rewind();
 
+#ifdef _GLIBCXX_USE_LFS
+ outF.close();
+ bool writeError=outF.fail();
+#else
+ bool writeError=(ferror(outF)!=0);
+ if(fclose(outF)!=0)
+   writeError=true;
+#endif
+ if(writeError)
+ {
+   std::cerr<<"Error while writing output file."<<std::endl;
+   return THOT_ERROR;
+ }
+
  return THOT_OK;
 }
 //-------------------------
@@ -424,6 +438,20 @@ bool AlignmentExtractor::intersect(const char *GizaAligFileName,
  }
  rewind();
 
+#ifdef _GLIBCXX_USE_LFS
+ outF.close();
+ bool writeError=outF.fail();
+#else
+ bool writeError=(ferror(outF)!=0);
+ if(fclose(outF)!=0)
+   writeError=true;
+#endif
+ if(writeError)
+ {
+   std::cerr<<"Error while writing output file."<<std::endl;
+   return THOT_ERROR;
+ }
+
  return THOT_OK;
 }
 //-------------------------
@@ -482,6 +510,20 @@ bool AlignmentExtractor::sum(const char *GizaAligFileName,
  }
  rewind();
 
+#ifdef _GLIBCXX_USE_LFS
+ outF.close();
+ bool writeError=outF.fail();
+#else
+ bool writeError=(ferror(outF)!=0);
+ if(fclose(outF)!=0)
+   writeError=true;
+#endif
+ if(writeError)
+ {
+   std::cerr<<"Error while writing output file."<<std::endl;
+   return THOT_ERROR;
+ }
+
  return THOT_OK;
 }
 //-------------------------
@@ -540,6 +582,20 @@ bool AlignmentExtractor::symmetr1(const char *GizaAligFileName,
  }
  rewind();
 
+#ifdef _GLIBCXX_USE_LFS
+ outF.close();
+ bool writeError=outF.fail();
+#else
+ bool writeError=(ferror(outF)!=0);
+ if(fclose(outF)!=0)
+   writeError=true;
+#endif
+ if(writeError)
+ {
+   std::cerr<<"Error while writing output file."<<std::endl;
+   return THOT_ERROR;
+ }
+
  return THOT_OK;
 }
 
@@ -599,6 +655,20 @@ bool AlignmentExtractor::symmetr2(const char *GizaAligFileName,
  }
  rewind();
 
+#ifdef _GLIBCXX_USE_LFS
+ outF.close();
+ bool writeError=outF.fail();
+#else
+ bool writeError=(ferror(outF)!=0);
+ if(fclose(outF)!=0)
+   writeError=true;
+#endif
+ if(writeError)
+ {
+   std::cerr<<"Error while writing output file."<<std::endl;
+   return THOT_ERROR;
+ }
+
  return THOT_OK;
 }
 
@@ -658,6 +728,20 @@ bool AlignmentExtractor::growDiagFinal(const char *GizaAligFileName,
  }
  rewind();
 
+#ifdef _GLIBCXX_USE_LFS
+ outF.close();
+ bool writeError=outF.fail();
+#else
+ bool writeError=(ferror(outF)!=0);
+ if(fclose(outF)!=0)
+   writeError=true;
+#endif
+ if(writeError)
+ {
+   std::cerr<<"Error while writing output file."<<std::endl;
+   return THOT_ERROR;
+ }
+
  return THOT_OK;
 }
 
diff --git a/src/phrase_models/thot_alig_op.cc b/src/phrase_models/thot_alig_op.cc
index 7039efe..086ebf3 100644
--- a/src/phrase_models/thot_alig_op.cc
+++ b/src/phrase_models/thot_alig_op.cc
@@ -107,9 +107,15 @@ int main(int argc,char *argv[])
        FILE *outF;
        outF=fopen(outputFileName,"w");
 #      endif
+       if(!outF)
+       {
+         std::cerr<<"Error while opening output file."<<std::endl;
+         return THOT_ERROR;
+       }
+       int ret=THOT_OK;
        if(!compactOutput)
        {
-         alignmentContainer.printNoCompact(outF);
+         ret=alignmentContainer.printNoCompact(outF);
        }
        else
        {
@@ -120,7 +126,20 @@ int main(int argc,char *argv[])
 #        endif
        }
        alignmentContainer.clear();
-       return THOT_OK;
+#      ifdef _GLIBCXX_USE_LFS
+       outF.close();
+       bool writeError=outF.fail();
+#      else
+       bool writeError=(ferror(outF)!=0);
+       if(fclose(outF)!=0)
+         writeError=true;
+#      endif
+       if(writeError)
+       {
+         std::cerr<<"Error while writing output file."<<std::endl;
+         return THOT_ERROR;
+       }
+       return ret;
      }
    }
    else // exhaustive option not given
@@ -372,7 +391,11 @@ void fileCopy (FILE* from, FILE *to)
       exit(1);
     }
   }  
-  fflush(to);
+  if(fflush(to)!=0)
+  {
+    std::cerr<<"Error writing temporary file."<<std::endl;
+    exit(1);
+  }
 }
 
 //--------------- TakeParameters function
diff --git a/src/phrase_models/thot_gen_phr_model.cc b/src/phrase_models/thot_gen_phr_model.cc
index e1b35f1..e151899 100644
--- a/src/phrase_models/thot_gen_phr_model.cc
+++ b/src/phrase_models/thot_gen_phr_model.cc
@@ -128,7 +128,12 @@ int genPhrModel(thot_gen_phr_model_pars pars)
    {
      std::string segmLengthTableFileName=pars.outputFilesPrefix;
      segmLengthTableFileName+=".seglentable";
-     _incrPhraseModelPtr->printSegmLengthTable(segmLengthTableFileName.c_str());
+     ret=_incrPhraseModelPtr->printSegmLengthTable(segmLengthTableFileName.c_str());
+     if(ret==THOT_ERROR)
+     {
+       delete _incrPhraseModelPtr;
+       return THOT_ERROR;
+     }
    }
 
        // Delete model pointer
diff --git a/src/stack_dec/_stackDecoderRec.h b/src/stack_dec/_stackDecoderRec.h
index 59a0acc..3f51561 100644
--- a/src/stack_dec/_stackDecoderRec.h
+++ b/src/stack_dec/_stackDecoderRec.h
@@ -365,6 +365,11 @@ bool _stackDecoderRec<SMT_MODEL>::printHypStateIdxInfo(const char* filename)
   {
     printHypStateIdxInfo(outS);
     outS.close();	
+    if(!outS)
+    {
+      std::cerr<<"Error while printing hypothesis state info file."<<std::endl;
+      return THOT_ERROR;
+    }
     return THOT_OK;
   }
 }
diff --git a/src/stack_dec/thot_ms_alig.cc b/src/stack_dec/thot_ms_alig.cc
index b674cc6..f5251a2 100644
--- a/src/stack_dec/thot_ms_alig.cc
+++ b/src/stack_dec/thot_ms_alig.cc
@@ -712,7 +712,8 @@ int align_corpus(const thot_ms_alig_pars& tap)
           char wgFileNameForSent[256];
           sprintf(wgFileNameForSent,"%s_%06d",tap.wordGraphFileName.c_str(),sentNo);
           stackDecoderRecPtr->pruneWordGraph(tap.wgPruningThreshold);
-          stackDecoderRecPtr->printWordGraph(wgFileNameForSent);
+          if(stackDecoderRecPtr->printWordGraph(wgFileNameForSent)==THOT_ERROR)
+            return THOT_ERROR;
         }
       }
       
@@ -739,6 +740,14 @@ int align_corpus(const thot_ms_alig_pars& tap)
     std::cerr<<"- Time per sentence: "<<total_time/sentNo<<std::endl;
   }
 
+      // Check that the output could be written
+  std::cout.flush();
+  if(!std::cout)
+  {
+    std::cerr<<"Error while writing to the standard output"<<std::endl;
+    return THOT_ERROR;
+  }
+
   return THOT_OK;
 }
 
diff --git a/src/stack_dec/thot_ms_dec.cc b/src/stack_dec/thot_ms_dec.cc
index 5ab72b7..113f338 100644
--- a/src/stack_dec/thot_ms_dec.cc
+++ b/src/stack_dec/thot_ms_dec.cc
@@ -629,7 +629,11 @@ int translate_corpus(const thot_ms_dec_pars& tdp)
     if(!tdp.outFile.empty())
     {
       outS.open(tdp.outFile.c_str(),std::ios::out);
-      if(!outS) std::cerr<<"Error while opening output file."<<std::endl;
+      if(!outS)
+      {
+        std::cerr<<"Error while opening output file."<<std::endl;
+        return THOT_ERROR;
+      }
     }
     
         // Translate corpus sentences
@@ -679,7 +683,8 @@ int translate_corpus(const thot_ms_dec_pars& tdp)
           char wgFileNameForSent[256];
           sprintf(wgFileNameForSent,"%s_%06d",tdp.wordGraphFileName.c_str(),sentNo);
           stackDecoderRecPtr->pruneWordGraph(tdp.wgPruningThreshold);
-          stackDecoderRecPtr->printWordGraph(wgFileNameForSent);
+          if(stackDecoderRecPtr->printWordGraph(wgFileNameForSent)==THOT_ERROR)
+            return THOT_ERROR;
         }
       }
 
@@ -702,6 +707,20 @@ int translate_corpus(const thot_ms_dec_pars& tdp)
     if(!tdp.outFile.empty())
     {
       outS.close();
+      if(outS.fail())
+      {
+        std::cerr<<"Error while writing output file."<<std::endl;
+        return THOT_ERROR;
+      }
+    }
+    else
+    {
+      std::cout.flush();
+      if(!std::cout)
+      {
+        std::cerr<<"Error while writing to the standard output"<<std::endl;
+        return THOT_ERROR;
+      }
     }
 
         // Close test corpus file
-- 
2.43.0


From c1a28e979e75151657999eebf08bfe2d92923f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:48 +0000
Subject: [PATCH 18/61] fix: crash when iterating over an empty phrase table

---
 src/phrase_models/HatTriePhraseTable.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/phrase_models/HatTriePhraseTable.cc b/src/phrase_models/HatTriePhraseTable.cc
index b9fca7b..9ba3b4d 100644
--- a/src/phrase_models/HatTriePhraseTable.cc
+++ b/src/phrase_models/HatTriePhraseTable.cc
@@ -555,7 +555,7 @@ HatTriePhraseTable::const_iterator HatTriePhraseTable::begin(void) const
 {
     // Shift the iterator to the first target phrase
     PhraseTable::const_iterator iterTrgBegin = phraseTable.begin();
-    while (!isTargetPhrase(keyToVector(iterTrgBegin.key())))
+    while (iterTrgBegin != phraseTable.end() && !isTargetPhrase(keyToVector(iterTrgBegin.key())))
     {
         iterTrgBegin++;
     }
-- 
2.43.0


From 66d5ef463a22d2db6907504fe92583d98893c256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:48 +0000
Subject: [PATCH 19/61] fix: report failed writes to the standard output

Tools that print their result ended with success when it could not be
written, e.g. because the disk was full.
---
 src/downhill_simplex/thot_dhs_step_by_step_min.cc |  7 +++++++
 src/incr_models/thot_ilm_perp.cc                  | 10 +++++++++-
 src/incr_models/thot_lm_perp.cc                   | 10 +++++++++-
 src/phrase_models/thot_query_pm.cc                |  8 ++++++++
 src/stack_dec/thot_calc_bleu.cc                   |  9 ++++++++-
 src/stack_dec/thot_check_constraints.cc           |  8 ++++++++
 src/stack_dec/thot_get_srcsents_from_metadata.cc  |  8 ++++++++
 src/stack_dec/thot_ll_weight_upd_nblist.cc        |  8 ++++++++
 src/stack_dec/thot_scorer.cc                      |  8 ++++++++
 src/sw_models/thot_calc_swm_lgprob.cc             |  8 ++++++++
 src/sw_models/thot_filter_bin_ilextable.cc        |  8 ++++++++
 src/sw_models/thot_gen_bin_lex_filter_info.cc     |  8 ++++++++
 src/sw_models/thot_merge_bin_ihmmatable.cc        |  8 ++++++++
 src/sw_models/thot_merge_bin_iibm2atable.cc       |  8 ++++++++
 src/sw_models/thot_merge_bin_ilextable.cc         |  8 ++++++++
 src/sw_models/thot_prune_bin_ilextable.cc         |  8 ++++++++
 src/sw_models/thot_sort_bin_ihmmatable.cc         |  8 ++++++++
 src/sw_models/thot_sort_bin_iibm2atable.cc        |  8 ++++++++
 src/sw_models/thot_sort_bin_ilextable.cc          |  8 ++++++++
 19 files changed, 153 insertions(+), 3 deletions(-)

diff --git a/src/downhill_simplex/thot_dhs_step_by_step_min.cc b/src/downhill_simplex/thot_dhs_step_by_step_min.cc
index 7cc1925..03a4f5e 100644
--- a/src/downhill_simplex/thot_dhs_step_by_step_min.cc
+++ b/src/downhill_simplex/thot_dhs_step_by_step_min.cc
@@ -156,6 +156,13 @@ int main(int argc,char *argv[])
     free(x);
     fclose(images_file);
     
+        // Check that the solution could be written
+    if(!std::cout)
+    {
+      std::cerr<<"Error while writing to the standard output"<<std::endl;
+      return THOT_ERROR;
+    }
+
     return THOT_OK;
   }
   return THOT_ERROR;
diff --git a/src/incr_models/thot_ilm_perp.cc b/src/incr_models/thot_ilm_perp.cc
index 47a8ee0..0e0a604 100644
--- a/src/incr_models/thot_ilm_perp.cc
+++ b/src/incr_models/thot_ilm_perp.cc
@@ -116,7 +116,15 @@ int main(int argc,char *argv[])
       std::cout<<"* Retrieving time: "<<total_time<<std::endl; 	   
 
       delete lm;
-   
+
+          // Check that the output could be written
+      std::cout.flush();
+      if(!std::cout)
+      {
+        std::cerr<<"Error while writing to the standard output"<<std::endl;
+        return THOT_ERROR;
+      }
+
       return THOT_OK;
     }
   }
diff --git a/src/incr_models/thot_lm_perp.cc b/src/incr_models/thot_lm_perp.cc
index 8ecb7f7..fa49271 100644
--- a/src/incr_models/thot_lm_perp.cc
+++ b/src/incr_models/thot_lm_perp.cc
@@ -113,7 +113,15 @@ int main(int argc,char *argv[])
       std::cout<<"* Retrieving time: "<<total_time<<std::endl; 	   
 
       release_lm(true);
-   
+
+          // Check that the output could be written
+      std::cout.flush();
+      if(!std::cout)
+      {
+        std::cerr<<"Error while writing to the standard output"<<std::endl;
+        return THOT_ERROR;
+      }
+
       return THOT_OK;
     }
   }
diff --git a/src/phrase_models/thot_query_pm.cc b/src/phrase_models/thot_query_pm.cc
index 59d3ee5..428d14a 100644
--- a/src/phrase_models/thot_query_pm.cc
+++ b/src/phrase_models/thot_query_pm.cc
@@ -128,6 +128,14 @@ int main(int argc,char *argv[])
         // Release objects and close modules
     delete pbModelPtr;
     basePhraseModelDynClassLoader.close_module();
+
+        // Check that the output could be written
+    std::cout.flush();
+    if(!std::cout)
+    {
+      std::cerr<<"Error while writing to the standard output"<<std::endl;
+      return THOT_ERROR;
+    }
      
     return ret;
   }
diff --git a/src/stack_dec/thot_calc_bleu.cc b/src/stack_dec/thot_calc_bleu.cc
index 8dfd0e7..95c923b 100644
--- a/src/stack_dec/thot_calc_bleu.cc
+++ b/src/stack_dec/thot_calc_bleu.cc
@@ -70,7 +70,6 @@ int main(int argc, char *argv[])
         else std::cout<<bleu_n[i];
       }
       std::cout<<std::endl;
-      return THOT_OK;
     }
     else
     {
@@ -81,6 +80,14 @@ int main(int argc, char *argv[])
       }
       std::cout<<"Smoothed BLEU= "<< smoothed_bleu <<std::endl;
     }
+        // Check that the output could be written
+    std::cout.flush();
+    if(!std::cout)
+    {
+      std::cerr<<"Error while writing to the standard output"<<std::endl;
+      return THOT_ERROR;
+    }
+    return THOT_OK;
   }
   else return err;
 }
diff --git a/src/stack_dec/thot_check_constraints.cc b/src/stack_dec/thot_check_constraints.cc
index 26bdc0c..94ce471 100644
--- a/src/stack_dec/thot_check_constraints.cc
+++ b/src/stack_dec/thot_check_constraints.cc
@@ -100,6 +100,14 @@ int main(int argc,char *argv[])
         // Check constraints for translations
     int retVal=check_constraints(pars);
 
+        // Check that the output could be written
+    std::cout.flush();
+    if(!std::cout)
+    {
+      std::cerr<<"Error while writing to the standard output"<<std::endl;
+      retVal=THOT_ERROR;
+    }
+
         // Release pointers
     delete baseTransMetadataPtr;
 
diff --git a/src/stack_dec/thot_get_srcsents_from_metadata.cc b/src/stack_dec/thot_get_srcsents_from_metadata.cc
index d0ebe85..2b3209b 100644
--- a/src/stack_dec/thot_get_srcsents_from_metadata.cc
+++ b/src/stack_dec/thot_get_srcsents_from_metadata.cc
@@ -93,6 +93,14 @@ int main(int argc,char *argv[])
         // Get source sentences
     int retVal=get_srcsents(pars);
 
+        // Check that the output could be written
+    std::cout.flush();
+    if(!std::cout)
+    {
+      std::cerr<<"Error while writing to the standard output"<<std::endl;
+      retVal=THOT_ERROR;
+    }
+
         // Release pointers
     delete baseTransMetadataPtr;
 
diff --git a/src/stack_dec/thot_ll_weight_upd_nblist.cc b/src/stack_dec/thot_ll_weight_upd_nblist.cc
index 0836e66..06a01a0 100644
--- a/src/stack_dec/thot_ll_weight_upd_nblist.cc
+++ b/src/stack_dec/thot_ll_weight_upd_nblist.cc
@@ -135,6 +135,14 @@ int main(int argc,char *argv[])
         // Update log-linear weights
     int retVal=update_ll_weights(pars);
 
+        // Check that the output could be written
+    std::cout.flush();
+    if(!std::cout)
+    {
+      std::cerr<<"Error while writing to the standard output"<<std::endl;
+      retVal=THOT_ERROR;
+    }
+
         // Release pointers
     delete baseScorerPtr;
     delete llWeightUpdaterPtr;
diff --git a/src/stack_dec/thot_scorer.cc b/src/stack_dec/thot_scorer.cc
index 87ca35d..7c98c48 100644
--- a/src/stack_dec/thot_scorer.cc
+++ b/src/stack_dec/thot_scorer.cc
@@ -99,6 +99,14 @@ int main(int argc,char *argv[])
         // Calculate score
     int retVal=calc_score(pars);
 
+        // Check that the output could be written
+    std::cout.flush();
+    if(!std::cout)
+    {
+      std::cerr<<"Error while writing to the standard output"<<std::endl;
+      retVal=THOT_ERROR;
+    }
+
         // Release pointers
     delete baseScorerPtr;
 
diff --git a/src/sw_models/thot_calc_swm_lgprob.cc b/src/sw_models/thot_calc_swm_lgprob.cc
index 27143a3..578383f 100644
--- a/src/sw_models/thot_calc_swm_lgprob.cc
+++ b/src/sw_models/thot_calc_swm_lgprob.cc
@@ -100,6 +100,14 @@ int main(int argc,char *argv[])
 
   if(ret==THOT_ERROR)
     return THOT_ERROR;
+
+      // Check that the output could be written
+  std::cout.flush();
+  if(!std::cout)
+  {
+    std::cerr<<"Error while writing to the standard output"<<std::endl;
+    return THOT_ERROR;
+  }
  }
  
  return THOT_OK;
diff --git a/src/sw_models/thot_filter_bin_ilextable.cc b/src/sw_models/thot_filter_bin_ilextable.cc
index 3345f09..302fc46 100644
--- a/src/sw_models/thot_filter_bin_ilextable.cc
+++ b/src/sw_models/thot_filter_bin_ilextable.cc
@@ -118,6 +118,14 @@ int main(int argc,char *argv[])
         // Close input files
     lexTableInF.close();
     filtInfoInf.close();      
+
+        // Check that the output could be written
+    std::cout.flush();
+    if(!std::cout)
+    {
+      std::cerr<<"Error while writing to the standard output"<<std::endl;
+      return THOT_ERROR;
+    }
     
     return THOT_OK;
   }
diff --git a/src/sw_models/thot_gen_bin_lex_filter_info.cc b/src/sw_models/thot_gen_bin_lex_filter_info.cc
index 909dc94..0197a8e 100644
--- a/src/sw_models/thot_gen_bin_lex_filter_info.cc
+++ b/src/sw_models/thot_gen_bin_lex_filter_info.cc
@@ -81,6 +81,14 @@ int main(int argc,char *argv[])
           // Close input file
       inF.close();      
 
+          // Check that the output could be written
+      std::cout.flush();
+      if(!std::cout)
+      {
+        std::cerr<<"Error while writing to the standard output"<<std::endl;
+        return THOT_ERROR;
+      }
+
       return THOT_OK;
     }
   }
diff --git a/src/sw_models/thot_merge_bin_ihmmatable.cc b/src/sw_models/thot_merge_bin_ihmmatable.cc
index 1775d75..4e9e7da 100644
--- a/src/sw_models/thot_merge_bin_ihmmatable.cc
+++ b/src/sw_models/thot_merge_bin_ihmmatable.cc
@@ -181,6 +181,14 @@ int main(int argc,char *argv[])
         // Close files and release pointers
     clear();
 
+        // Check that the output could be written
+    std::cout.flush();
+    if(!std::cout)
+    {
+      std::cerr<<"Error while writing to the standard output"<<std::endl;
+      return THOT_ERROR;
+    }
+
     return THOT_OK;
   }
   else return THOT_ERROR;
diff --git a/src/sw_models/thot_merge_bin_iibm2atable.cc b/src/sw_models/thot_merge_bin_iibm2atable.cc
index b832647..9263e7a 100644
--- a/src/sw_models/thot_merge_bin_iibm2atable.cc
+++ b/src/sw_models/thot_merge_bin_iibm2atable.cc
@@ -184,6 +184,14 @@ int main(int argc,char *argv[])
         // Close files and release pointers
     clear();
 
+        // Check that the output could be written
+    std::cout.flush();
+    if(!std::cout)
+    {
+      std::cerr<<"Error while writing to the standard output"<<std::endl;
+      return THOT_ERROR;
+    }
+
     return THOT_OK;
   }
   else return THOT_ERROR;
diff --git a/src/sw_models/thot_merge_bin_ilextable.cc b/src/sw_models/thot_merge_bin_ilextable.cc
index f455cb5..fedd501 100644
--- a/src/sw_models/thot_merge_bin_ilextable.cc
+++ b/src/sw_models/thot_merge_bin_ilextable.cc
@@ -177,6 +177,14 @@ int main(int argc,char *argv[])
         // Close files and release pointers
     clear();
 
+        // Check that the output could be written
+    std::cout.flush();
+    if(!std::cout)
+    {
+      std::cerr<<"Error while writing to the standard output"<<std::endl;
+      return THOT_ERROR;
+    }
+
     return THOT_OK;
   }
   else return THOT_ERROR;
diff --git a/src/sw_models/thot_prune_bin_ilextable.cc b/src/sw_models/thot_prune_bin_ilextable.cc
index 8b578f5..b08bfea 100644
--- a/src/sw_models/thot_prune_bin_ilextable.cc
+++ b/src/sw_models/thot_prune_bin_ilextable.cc
@@ -145,6 +145,14 @@ int main(int argc,char *argv[])
           // print last group of counts
       printCounts(firstSrc,trgWordVec,lcSrc,lcSrcTrgVec);
 
+          // Check that the output could be written
+      std::cout.flush();
+      if(!std::cout)
+      {
+        std::cerr<<"Error while writing to the standard output"<<std::endl;
+        return THOT_ERROR;
+      }
+
       return THOT_OK;
     }  
   }
diff --git a/src/sw_models/thot_sort_bin_ihmmatable.cc b/src/sw_models/thot_sort_bin_ihmmatable.cc
index e6fc2c3..f79ed10 100644
--- a/src/sw_models/thot_sort_bin_ihmmatable.cc
+++ b/src/sw_models/thot_sort_bin_ihmmatable.cc
@@ -127,6 +127,14 @@ int main(int argc,char *argv[])
         std::cout.write((char*)&entryVec[i].numer,sizeof(float));
         std::cout.write((char*)&entryVec[i].denom,sizeof(float));            
       }
+
+          // Check that the output could be written
+      std::cout.flush();
+      if(!std::cout)
+      {
+        std::cerr<<"Error while writing to the standard output"<<std::endl;
+        return THOT_ERROR;
+      }
       
       return THOT_OK;
     }
diff --git a/src/sw_models/thot_sort_bin_iibm2atable.cc b/src/sw_models/thot_sort_bin_iibm2atable.cc
index 3e34857..cf2d9af 100644
--- a/src/sw_models/thot_sort_bin_iibm2atable.cc
+++ b/src/sw_models/thot_sort_bin_iibm2atable.cc
@@ -132,6 +132,14 @@ int main(int argc,char *argv[])
         std::cout.write((char*)&entryVec[i].numer,sizeof(float));
         std::cout.write((char*)&entryVec[i].denom,sizeof(float));            
       }
+
+          // Check that the output could be written
+      std::cout.flush();
+      if(!std::cout)
+      {
+        std::cerr<<"Error while writing to the standard output"<<std::endl;
+        return THOT_ERROR;
+      }
       
       return THOT_OK;
     }
diff --git a/src/sw_models/thot_sort_bin_ilextable.cc b/src/sw_models/thot_sort_bin_ilextable.cc
index 0a19df5..b0ba327 100644
--- a/src/sw_models/thot_sort_bin_ilextable.cc
+++ b/src/sw_models/thot_sort_bin_ilextable.cc
@@ -141,6 +141,14 @@ int main(int argc,char *argv[])
         std::cout.write((char*)&entryVec[i].numer,sizeof(float));
         std::cout.write((char*)&entryVec[i].denom,sizeof(float));
       }
+
+          // Check that the output could be written
+      std::cout.flush();
+      if(!std::cout)
+      {
+        std::cerr<<"Error while writing to the standard output"<<std::endl;
+        return THOT_ERROR;
+      }
       
       return THOT_OK;
     }
-- 
2.43.0


From 1f4f6adb6b78ab5141d1a1c096563aa05d4b4834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:00 +0000
Subject: [PATCH 20/61] fix: crash when merging tables without entries

---
 src/sw_models/thot_merge_bin_ihmmatable.cc  | 5 +++--
 src/sw_models/thot_merge_bin_iibm2atable.cc | 5 +++--
 src/sw_models/thot_merge_bin_ilextable.cc   | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/sw_models/thot_merge_bin_ihmmatable.cc b/src/sw_models/thot_merge_bin_ihmmatable.cc
index 4e9e7da..bed6f59 100644
--- a/src/sw_models/thot_merge_bin_ihmmatable.cc
+++ b/src/sw_models/thot_merge_bin_ihmmatable.cc
@@ -175,8 +175,9 @@ int main(int argc,char *argv[])
       }
       else end=true;
     }
-        // Print last group of counts
-    printCounts(firstSrc,trgPosVec,lcSrc,lcSrcTrgVec);
+        // Print last group of counts (if there is any)
+    if(!first_entry)
+      printCounts(firstSrc,trgPosVec,lcSrc,lcSrcTrgVec);
 
         // Close files and release pointers
     clear();
diff --git a/src/sw_models/thot_merge_bin_iibm2atable.cc b/src/sw_models/thot_merge_bin_iibm2atable.cc
index 9263e7a..4351ef1 100644
--- a/src/sw_models/thot_merge_bin_iibm2atable.cc
+++ b/src/sw_models/thot_merge_bin_iibm2atable.cc
@@ -178,8 +178,9 @@ int main(int argc,char *argv[])
       }
       else end=true;
     }
-        // Print last group of counts
-    printCounts(firstSrc,trgPosVec,lcSrc,lcSrcTrgVec);
+        // Print last group of counts (if there is any)
+    if(!first_entry)
+      printCounts(firstSrc,trgPosVec,lcSrc,lcSrcTrgVec);
 
         // Close files and release pointers
     clear();
diff --git a/src/sw_models/thot_merge_bin_ilextable.cc b/src/sw_models/thot_merge_bin_ilextable.cc
index fedd501..c10ea32 100644
--- a/src/sw_models/thot_merge_bin_ilextable.cc
+++ b/src/sw_models/thot_merge_bin_ilextable.cc
@@ -171,8 +171,9 @@ int main(int argc,char *argv[])
       }
       else end=true;
     }
-        // Print last group of counts
-    printCounts(firstSrc,trgWordVec,lcSrc,lcSrcTrgVec);
+        // Print last group of counts (if there is any)
+    if(!first_entry)
+      printCounts(firstSrc,trgWordVec,lcSrc,lcSrcTrgVec);
 
         // Close files and release pointers
     clear();
-- 
2.43.0


From 0ae061804b899ec80ba4f733464745faf47b7976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:00 +0000
Subject: [PATCH 21/61] fix: endless loop in weight updates when the temporary
 file cannot be written

---
 src/incr_models/_incrJelMerNgramLM.h | 7 +++++--
 src/stack_dec/PhrLocalSwLiTm.cc      | 7 +++++--
 src/stack_dec/WeightUpdateUtils.cc   | 7 +++++--
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/incr_models/_incrJelMerNgramLM.h b/src/incr_models/_incrJelMerNgramLM.h
index b94fcd3..dccf03a 100644
--- a/src/incr_models/_incrJelMerNgramLM.h
+++ b/src/incr_models/_incrJelMerNgramLM.h
@@ -284,8 +284,11 @@ int _incrJelMerNgramLM<SRC_INFO,SRCTRG_INFO>::new_dhs_eval(const char *corpusFil
     retVal=THOT_OK;
   }
       // Print result to tmp file
-  fprintf(tmp_file,"%g\n",obj_func);
-  fflush(tmp_file);
+  if(fprintf(tmp_file,"%g\n",obj_func)<0 || fflush(tmp_file)!=0)
+  {
+    std::cerr<<"Error while writing temporary file"<<std::endl;
+    return THOT_ERROR;
+  }
       // step_by_step_simplex needs that the file position
       // indicator is set at the start of the stream
   rewind(tmp_file);
diff --git a/src/stack_dec/PhrLocalSwLiTm.cc b/src/stack_dec/PhrLocalSwLiTm.cc
index 47e6a28..01c60ed 100644
--- a/src/stack_dec/PhrLocalSwLiTm.cc
+++ b/src/stack_dec/PhrLocalSwLiTm.cc
@@ -382,8 +382,11 @@ int PhrLocalSwLiTm::new_dhs_eval(const std::vector<std::vector<PhrasePair> >& in
   }
   
       // Print result to tmp file
-  fprintf(tmp_file,"%g\n",obj_func);
-  fflush(tmp_file);
+  if(fprintf(tmp_file,"%g\n",obj_func)<0 || fflush(tmp_file)!=0)
+  {
+    std::cerr<<"Error while writing temporary file"<<std::endl;
+    return THOT_ERROR;
+  }
       // step_by_step_simplex needs that the file position
       // indicator is set at the start of the stream
   rewind(tmp_file);
diff --git a/src/stack_dec/WeightUpdateUtils.cc b/src/stack_dec/WeightUpdateUtils.cc
index a1dedf5..bd84f03 100644
--- a/src/stack_dec/WeightUpdateUtils.cc
+++ b/src/stack_dec/WeightUpdateUtils.cc
@@ -251,8 +251,11 @@ namespace WeightUpdateUtils
     }
   
         // Print result to tmp file
-    fprintf(tmp_file,"%g\n",obj_func);
-    fflush(tmp_file);
+    if(fprintf(tmp_file,"%g\n",obj_func)<0 || fflush(tmp_file)!=0)
+    {
+      std::cerr<<"Error while writing temporary file"<<std::endl;
+      return THOT_ERROR;
+    }
         // step_by_step_simplex needs that the file position
         // indicator is set at the start of the stream
     rewind(tmp_file);
-- 
2.43.0


From ac6549aeb3545dec94679b091cb346fecfd948fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:00 +0000
Subject: [PATCH 22/61] fix: create a LevelDB database again when the old one
 cannot be opened

An interrupted removal leaves a database that LevelDB refuses to open, so
that no later conversion to the same place could succeed.
---
 src/incr_models/LevelDbNgramTable.cc    | 7 ++++++-
 src/phrase_models/LevelDbPhraseTable.cc | 7 ++++++-
 src/stack_dec/LevelDbDict.cc            | 7 ++++++-
 src/sw_models/IncrLexLevelDbTable.cc    | 5 +++++
 4 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/incr_models/LevelDbNgramTable.cc b/src/incr_models/LevelDbNgramTable.cc
index 7f1a8e7..eb9c280 100644
--- a/src/incr_models/LevelDbNgramTable.cc
+++ b/src/incr_models/LevelDbNgramTable.cc
@@ -197,7 +197,12 @@ bool LevelDbNgramTable::init(std::string levelDbPath)
     }
 
     if(load(levelDbPath.c_str()) != THOT_OK)
-        return THOT_ERROR;
+    {
+        // Remove the old DB if it cannot be opened (e.g. because its removal
+        // was interrupted)
+        if(drop() != THOT_OK || load(levelDbPath.c_str()) != THOT_OK)
+            return THOT_ERROR;
+    }
 
     clear();
 
diff --git a/src/phrase_models/LevelDbPhraseTable.cc b/src/phrase_models/LevelDbPhraseTable.cc
index 1bbc091..f045fc2 100644
--- a/src/phrase_models/LevelDbPhraseTable.cc
+++ b/src/phrase_models/LevelDbPhraseTable.cc
@@ -134,7 +134,12 @@ bool LevelDbPhraseTable::init(std::string levelDbPath)
     }
 
     if(load(levelDbPath) != THOT_OK)
-        return THOT_ERROR;
+    {
+        // Remove the old DB if it cannot be opened (e.g. because its removal
+        // was interrupted)
+        if(drop() != THOT_OK || load(levelDbPath) != THOT_OK)
+            return THOT_ERROR;
+    }
 
     clear();
 
diff --git a/src/stack_dec/LevelDbDict.cc b/src/stack_dec/LevelDbDict.cc
index 2f3c001..b2c5faa 100644
--- a/src/stack_dec/LevelDbDict.cc
+++ b/src/stack_dec/LevelDbDict.cc
@@ -91,7 +91,12 @@ bool LevelDbDict::init(std::string levelDbPath)
     }
 
     if(load(levelDbPath) != THOT_OK)
-        return THOT_ERROR;
+    {
+        // Remove the old DB if it cannot be opened (e.g. because its removal
+        // was interrupted)
+        if(drop() != THOT_OK || load(levelDbPath) != THOT_OK)
+            return THOT_ERROR;
+    }
 
     clear();
 
diff --git a/src/sw_models/IncrLexLevelDbTable.cc b/src/sw_models/IncrLexLevelDbTable.cc
index bd62b92..20b5ad2 100644
--- a/src/sw_models/IncrLexLevelDbTable.cc
+++ b/src/sw_models/IncrLexLevelDbTable.cc
@@ -60,6 +60,11 @@ bool IncrLexLevelDbTable::init(const char* prefFileName)
     // Prepare empty DB
     leveldb::Status status = leveldb::DB::Open(options, dbName, &db);
 
+    // Remove the old DB if it cannot be opened (e.g. because its removal was
+    // interrupted)
+    if (!status.ok() && drop() == THOT_OK)
+        status = leveldb::DB::Open(options, dbName, &db);
+
     if (status.ok())
     {
         clear();
-- 
2.43.0


From 8dc8afaecf4b6d69206f70a87690f12a7bcb1c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:55 +0000
Subject: [PATCH 23/61] fix: thot_client ended with success when it could not
 print the reply

---
 src/stack_dec/thot_client.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/stack_dec/thot_client.cc b/src/stack_dec/thot_client.cc
index 5cfd9fc..36e5cc5 100644
--- a/src/stack_dec/thot_client.cc
+++ b/src/stack_dec/thot_client.cc
@@ -89,6 +89,14 @@ int main(int argc,char *argv[])
       return THOT_ERROR;
     }
     
+        // Check that the output could be written
+    std::cout.flush();
+    if(!std::cout)
+    {
+      std::cerr<<"Error while writing to the standard output"<<std::endl;
+      return THOT_ERROR;
+    }
+
     return THOT_OK;
   } 
   else return THOT_ERROR;  
-- 
2.43.0


From 20d41412e33f43d27a0ca00611550d53111fae7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:18 +0000
Subject: [PATCH 24/61] fix: unigram counts of LevelDB language models after
 training

The count of the empty context was not increased when an n-gram table stored
in LevelDB was updated, so the probabilities of unigrams were wrong.
---
 src/incr_models/LevelDbNgramTable.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/incr_models/LevelDbNgramTable.cc b/src/incr_models/LevelDbNgramTable.cc
index eb9c280..54f4245 100644
--- a/src/incr_models/LevelDbNgramTable.cc
+++ b/src/incr_models/LevelDbNgramTable.cc
@@ -357,6 +357,15 @@ void LevelDbNgramTable::incrCountsOfEntryLog(const std::vector<WordIndex>& s,
 
     // Update counts
     addSrcTrgInfo(s, t, src_trg_count);  // (s, t)
+
+    // The count of a non-empty (s) is that of the n-gram, the one of the
+    // empty context has an entry of its own
+    if (s.size() == 0)
+    {
+        Count src_count = srcInfoNull;
+        src_count.incr_logcount((float) lc);
+        addSrcInfo(s, src_count);  // (s)
+    }
 }
 
 //-------------------------
-- 
2.43.0


From e390da00491d46e6a60d50ce97b5055a22142827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:18 +0000
Subject: [PATCH 25/61] fix: codes of new words were those of known ones after
 loading a vocabulary

Language models stored in LevelDB mixed the counts of the words learnt online
with the ones of words of the vocabulary.
---
 src/incr_models/vecx_x_incr_enc.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/incr_models/vecx_x_incr_enc.h b/src/incr_models/vecx_x_incr_enc.h
index b153d81..7bfd6e9 100644
--- a/src/incr_models/vecx_x_incr_enc.h
+++ b/src/incr_models/vecx_x_incr_enc.h
@@ -300,6 +300,9 @@ bool vecx_x_incr_enc<HX,X>::load(const char *prefixFileName)
           //cout<<s<< " ||| " <<t<<" ||| "<<inf<<std::endl;
       this->hx_to_x[hx]=x;
       this->x_to_hx[x]=hx;
+
+          // Codes of new entries should follow the ones already given
+      if(x_object<x) x_object=x;
     }
     return THOT_OK;
   }  
-- 
2.43.0


From 0e7a5ec0bbb10fc0c340a41d6702d1aa21d17f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:32 +0000
Subject: [PATCH 26/61] fix: words learnt online were lost when saving a
 LevelDB language model

Their n-grams were kept in the database, so after loading the model again
they were taken for those of other words.
---
 src/incr_models/IncrJelMerLevelDbNgramLM.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/incr_models/IncrJelMerLevelDbNgramLM.cc b/src/incr_models/IncrJelMerLevelDbNgramLM.cc
index 07add37..111c17b 100644
--- a/src/incr_models/IncrJelMerLevelDbNgramLM.cc
+++ b/src/incr_models/IncrJelMerLevelDbNgramLM.cc
@@ -115,8 +115,15 @@ bool IncrJelMerLevelDbNgramLM::print(const char *fileName)
   std::string fileNameStl = fileName;
   if(ngramTableFileNameLoaded == fileNameStl)
   {
+        // Print vocabulary (the n-grams learnt online are already in the
+        // database, with the codes given to new words)
+    std::string vocabFileName=fileNameStl+".ldb_vcb";
+    int ret=this->encPtr->print(vocabFileName.c_str());
+    if(ret==THOT_ERROR)
+      return THOT_ERROR;
+
         // Print weights
-    int ret=printWeights(fileName);
+    ret=printWeights(fileName);
     if(ret==THOT_ERROR)
       return THOT_ERROR;
 
-- 
2.43.0


From 8ed4af51e1d134ec3129e3e833fc240e9ef165ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:56 +0000
Subject: [PATCH 27/61] fix: endless loop with language model files having
 incomplete lines

A line with less than two fields, such as the last one of a truncated file,
gave a model of an enormous order.
---
 src/incr_models/_incrNgramLM.h | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/incr_models/_incrNgramLM.h b/src/incr_models/_incrNgramLM.h
index b9ddc44..14e6bdd 100644
--- a/src/incr_models/_incrNgramLM.h
+++ b/src/incr_models/_incrNgramLM.h
@@ -483,7 +483,7 @@ bool _incrNgramLM<SRC_INFO,SRCTRG_INFO>::load_ngrams(const char *fileName)
         // need to know the order before adding any n-gram)
     while(awk.getln())
     {
-      if(ngramOrder<awk.NF-2) ngramOrder=awk.NF-2;
+      if(awk.NF>2 && ngramOrder<awk.NF-2) ngramOrder=awk.NF-2;
     }
 
         // Rewind file
@@ -492,15 +492,12 @@ bool _incrNgramLM<SRC_INFO,SRCTRG_INFO>::load_ngrams(const char *fileName)
         // Read n-grams
     while(awk.getln())
     {
-      if(awk.NF>1)
+      if(awk.NF>2)
       {
         hs.clear();
-        if(awk.NF>2)
+        for(i=1;i<awk.NF-2;++i)
         {
-          for(i=1;i<awk.NF-2;++i)
-          {
-            hs.push_back(awk.dollar(i));
-          }
+          hs.push_back(awk.dollar(i));
         }
         ht=awk.dollar(awk.NF-2);
         inf.first=atof(awk.dollar(awk.NF-1).c_str());
-- 
2.43.0


From f1d383b77d43bf3cc58e99ae38275985e980dc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:13 +0000
Subject: [PATCH 28/61] fix: crash with model descriptors without complete
 entries

---
 src/nlp_common/ModelDescriptorUtils.cc |  4 ++++
 src/stack_dec/StdFeatureHandler.cc     | 12 ++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/nlp_common/ModelDescriptorUtils.cc b/src/nlp_common/ModelDescriptorUtils.cc
index 40f6718..dea27b3 100644
--- a/src/nlp_common/ModelDescriptorUtils.cc
+++ b/src/nlp_common/ModelDescriptorUtils.cc
@@ -231,6 +231,10 @@ bool extractModelEntryInfo(std::string fileName,
                 break;
               }
             
+                // Discard entries without all of the fields
+            if(entryLen<3)
+              continue;
+
                 // Extract model initialization info
             for(unsigned int i=1;i<entryLen-1;++i)
             {
diff --git a/src/stack_dec/StdFeatureHandler.cc b/src/stack_dec/StdFeatureHandler.cc
index 9e9ff10..af3df86 100644
--- a/src/stack_dec/StdFeatureHandler.cc
+++ b/src/stack_dec/StdFeatureHandler.cc
@@ -824,6 +824,12 @@ bool StdFeatureHandler::process_tm_descriptor(std::string tmDescFile,
   std::vector<ModelDescriptorEntry> modelDescEntryVec;
   if(extractModelEntryInfo(tmDescFile,modelDescEntryVec)==THOT_OK)
   {
+    if(modelDescEntryVec.empty())
+    {
+      std::cerr<<"Error: translation model descriptor "<<tmDescFile<<" does not contain entries"<<std::endl;
+      return THOT_ERROR;
+    }
+
         // Process descriptor entries
     for(unsigned int i=0;i<modelDescEntryVec.size();++i)
     {
@@ -1032,6 +1038,12 @@ bool StdFeatureHandler::process_lm_descriptor(std::string lmDescFile,
   std::vector<ModelDescriptorEntry> modelDescEntryVec;
   if(extractModelEntryInfo(lmDescFile,modelDescEntryVec)==THOT_OK)
   {
+    if(modelDescEntryVec.empty())
+    {
+      std::cerr<<"Error: language model descriptor "<<lmDescFile<<" does not contain entries"<<std::endl;
+      return THOT_ERROR;
+    }
+
         // Process descriptor entries
     for(unsigned int i=0;i<modelDescEntryVec.size();++i)
     {
-- 
2.43.0


From d891e7f1c2508ae1d594aff1775dce10e066b63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:21 +0000
Subject: [PATCH 29/61] fix: crash with incomplete word graph files

---
 src/error_correction/WordGraph.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/error_correction/WordGraph.cc b/src/error_correction/WordGraph.cc
index 63a22ae..14e9c2f 100644
--- a/src/error_correction/WordGraph.cc
+++ b/src/error_correction/WordGraph.cc
@@ -1321,6 +1321,19 @@ bool WordGraph::load(const char * filename)
       }
     }
     awk.close();
+
+        // Check that the final states exist
+    FinalStateSet::const_iterator iter;
+    for(iter=finalStateSet.begin();iter!=finalStateSet.end();++iter)
+    {
+      if(*iter>=wordGraphStates.size())
+      {
+        std::cerr<<"Error: word graph file "<<filename<<" is incomplete (final state "<<*iter<<" not found)\n";
+        clear();
+        return THOT_ERROR;
+      }
+    }
+
     return THOT_OK;
   }
 }
-- 
2.43.0


From c57a03b63e7563375b8dfcc4b1e99c8bd617909e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:21 +0000
Subject: [PATCH 30/61] fix: crash in thot_scorer when there are fewer
 references than sentences

---
 src/stack_dec/thot_scorer.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/stack_dec/thot_scorer.cc b/src/stack_dec/thot_scorer.cc
index 7c98c48..fe2423c 100644
--- a/src/stack_dec/thot_scorer.cc
+++ b/src/stack_dec/thot_scorer.cc
@@ -248,6 +248,13 @@ int calc_score(const thot_scorer_pars& pars)
   if(retVal==THOT_ERROR)
     return THOT_ERROR;
 
+      // Check that there is a reference for each system sentence
+  if(referenceVec.size()!=sysSentVec.size())
+  {
+    std::cerr<<"Error: the number of references and system sentences are not equal"<<std::endl;
+    return THOT_ERROR;
+  }
+
       // Calculate score
   double score;
   baseScorerPtr->corpusScore(sysSentVec,
-- 
2.43.0


From 1b557721cfe50421cd16a8010eab25abf8296831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:21 +0000
Subject: [PATCH 31/61] fix: crash in thot_ll_weight_upd_nblist with incomplete
 files

---
 src/stack_dec/thot_ll_weight_upd_nblist.cc | 24 ++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/stack_dec/thot_ll_weight_upd_nblist.cc b/src/stack_dec/thot_ll_weight_upd_nblist.cc
index 06a01a0..00e6889 100644
--- a/src/stack_dec/thot_ll_weight_upd_nblist.cc
+++ b/src/stack_dec/thot_ll_weight_upd_nblist.cc
@@ -419,6 +419,30 @@ int update_ll_weights(const thot_llwu_nblist_pars& pars)
     }
   }
 
+      // Check that there is a reference for each n-best list and that the
+      // lists are complete
+  if(referenceVec.size()!=nblistVec.size())
+  {
+    std::cerr<<"Error: the number of references and n-best lists are not equal"<<std::endl;
+    return THOT_ERROR;
+  }
+  for(unsigned int i=0;i<nblistVec.size();++i)
+  {
+    if(nblistVec[i].empty())
+    {
+      std::cerr<<"Error: n-best list number "<<i+1<<" is empty"<<std::endl;
+      return THOT_ERROR;
+    }
+    for(unsigned int j=0;j<scoreCompsVec[i].size();++j)
+    {
+      if(scoreCompsVec[i][j].size()!=currWeightsVec.size())
+      {
+        std::cerr<<"Error: incomplete entry in n-best list number "<<i+1<<std::endl;
+        return THOT_ERROR;
+      }
+    }
+  }
+
       // Update log-linear weights
   std::vector<double> newWeightsVec;
   llWeightUpdaterPtr->updateClosedCorpus(referenceVec,
-- 
2.43.0


From 0575bd2e45a4b723ba84f232a7afd81a7f3d6804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:21 +0000
Subject: [PATCH 32/61] fix: endless loop when the sentences to be processed
 cannot be read

---
 src/stack_dec/thot_ms_alig.cc | 12 ++++++++++--
 src/stack_dec/thot_ms_dec.cc  | 11 +++++++++--
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/stack_dec/thot_ms_alig.cc b/src/stack_dec/thot_ms_alig.cc
index f5251a2..bc1b32e 100644
--- a/src/stack_dec/thot_ms_alig.cc
+++ b/src/stack_dec/thot_ms_alig.cc
@@ -652,13 +652,13 @@ int align_corpus(const thot_ms_alig_pars& tap)
   else
   {
         // Align corpus sentences
-    while(!testCorpusFile.eof())
+    while(testCorpusFile.good())
     {
       getline(testCorpusFile,srcSentenceString);
       getline(refCorpusFile,trgSentenceString);
 
           // Discard last sentence pair if it is empty
-      if(srcSentenceString=="" && trgSentenceString=="" && testCorpusFile.eof())
+      if(srcSentenceString=="" && trgSentenceString=="" && !testCorpusFile.good())
         break;
 
       ++sentNo;
@@ -732,6 +732,14 @@ int align_corpus(const thot_ms_alig_pars& tap)
       }
 #endif        
     }
+
+        // Check that the files could be read
+    if(testCorpusFile.bad() || refCorpusFile.bad())
+    {
+      std::cerr<<"Error while reading the sentences to be aligned"<<std::endl;
+      return THOT_ERROR;
+    }
+
     testCorpusFile.close(); 
   }
 
diff --git a/src/stack_dec/thot_ms_dec.cc b/src/stack_dec/thot_ms_dec.cc
index 113f338..1068365 100644
--- a/src/stack_dec/thot_ms_dec.cc
+++ b/src/stack_dec/thot_ms_dec.cc
@@ -637,12 +637,12 @@ int translate_corpus(const thot_ms_dec_pars& tdp)
     }
     
         // Translate corpus sentences
-    while(!testCorpusFile.eof())
+    while(testCorpusFile.good())
     {
       getline(testCorpusFile,srcSentenceString);
 
           // Discard last sentence if it is empty
-      if(srcSentenceString=="" && testCorpusFile.eof())
+      if(srcSentenceString=="" && !testCorpusFile.good())
         break;
       
       ++sentNo;
@@ -703,6 +703,13 @@ int translate_corpus(const thot_ms_dec_pars& tdp)
       }
 #endif        
     }
+        // Check that the file could be read
+    if(testCorpusFile.bad())
+    {
+      std::cerr<<"Error while reading file with sentences "<<tdp.sourceSentencesFile<<std::endl;
+      return THOT_ERROR;
+    }
+
         // Close output file
     if(!tdp.outFile.empty())
     {
-- 
2.43.0


From 1d0e8f413c7a06a0ea84d2a9b46416185dbac08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:21 +0000
Subject: [PATCH 33/61] fix: model released twice in thot_calc_swm_lgprob when
 it cannot be loaded

---
 src/sw_models/thot_calc_swm_lgprob.cc | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/src/sw_models/thot_calc_swm_lgprob.cc b/src/sw_models/thot_calc_swm_lgprob.cc
index 578383f..3c16da9 100644
--- a/src/sw_models/thot_calc_swm_lgprob.cc
+++ b/src/sw_models/thot_calc_swm_lgprob.cc
@@ -122,10 +122,7 @@ int process_parameters(void)
     std::cerr<<"t: "<<trgSent <<std::endl;   
     int ret=swAligModelPtr->load(swFilePrefix.c_str());
     if(ret==THOT_ERROR)
-    {
-      release_swm();
       return THOT_ERROR;
-    }
     if(alig_given) 
     {
           // Calculate log-prob given alignment
@@ -166,10 +163,7 @@ int process_parameters(void)
           // Process sentence pair + alignment file
       int ret=processPairAligFile(swAligModelPtr,pairPlusAligFile.c_str());
       if(ret==THOT_ERROR)
-      {
-        release_swm();
         return THOT_ERROR;
-      }
       else return THOT_OK;
     }
     else
@@ -177,10 +171,7 @@ int process_parameters(void)
           // Process sentence pair file
       int ret=processSentPairFile(swAligModelPtr,sentPairFile.c_str());
       if(ret==THOT_ERROR)
-      {
-        release_swm();
         return THOT_ERROR;
-      }
       else return THOT_OK;
     }
   }
-- 
2.43.0


From dd65486873bb9a15f5bed74dbe4621826f432cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:21 +0000
Subject: [PATCH 34/61] fix: crash in thot_li_weight_upd when the models cannot
 be loaded

---
 src/stack_dec/thot_li_weight_upd.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/stack_dec/thot_li_weight_upd.cc b/src/stack_dec/thot_li_weight_upd.cc
index 255b133..8ff4972 100644
--- a/src/stack_dec/thot_li_weight_upd.cc
+++ b/src/stack_dec/thot_li_weight_upd.cc
@@ -299,9 +299,7 @@ int initPhrModelFeatImpl(std::string phrModelFilePrefix)
   set_default_models();
   
       // Load model features
-  load_model_features(phrModelFilePrefix);
-    
-  return THOT_OK;
+  return load_model_features(phrModelFilePrefix);
 }
 
 //---------------
-- 
2.43.0


From 8521587c366b5e7277fbedb91f1a27e79357587d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:19 +0000
Subject: [PATCH 35/61] fix: crash in thot_check_constraints with incomplete
 alignment information

---
 src/stack_dec/thot_check_constraints.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/stack_dec/thot_check_constraints.cc b/src/stack_dec/thot_check_constraints.cc
index 94ce471..2eb756c 100644
--- a/src/stack_dec/thot_check_constraints.cc
+++ b/src/stack_dec/thot_check_constraints.cc
@@ -313,6 +313,10 @@ int extract_align_info(std::vector<std::string> alignInfoStrVec,
       }
       else
       {
+            // Check that the segment is complete
+        if(i+3>=alignInfoStrVec.size())
+          return THOT_ERROR;
+
         PositionIndex leftmostPos=atoi(alignInfoStrVec[i+1].c_str());
         PositionIndex rightmostPos=atoi(alignInfoStrVec[i+3].c_str());
         sourceSegmentation.push_back(std::make_pair(leftmostPos,rightmostPos));
-- 
2.43.0


From f4c4c09be026c351fb53434899b9ad7eaa8209f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:13 +0000
Subject: [PATCH 36/61] fix: sentence pairs lost when the alignment models are
 saved over the files they were loaded from

---
 src/sw_models/LightSentenceHandler.cc | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/sw_models/LightSentenceHandler.cc b/src/sw_models/LightSentenceHandler.cc
index 520c6be..4712465 100644
--- a/src/sw_models/LightSentenceHandler.cc
+++ b/src/sw_models/LightSentenceHandler.cc
@@ -25,6 +25,7 @@ along with this program; If not, see <http://www.gnu.org/licenses/>.
 //--------------- Include files --------------------------------------
 
 #include "LightSentenceHandler.h"
+#include <cstdio>
 
 //--------------- LightSentenceHandler class function definitions
 
@@ -304,8 +305,14 @@ bool LightSentenceHandler::printSentPairs(const char *srcSentFile,
   std::ofstream trgOutF;
   std::ofstream countsOutF;
 
+      // The sentence pairs may be read from the very files that are
+      // going to be replaced, so the new ones are written apart
+  std::string srcTmpFile=std::string(srcSentFile)+".tmp";
+  std::string trgTmpFile=std::string(trgSentFile)+".tmp";
+  std::string countsTmpFile=std::string(sentCountsFile)+".tmp";
+
       // Open file with source sentences
-  srcOutF.open(srcSentFile,std::ios::out);
+  srcOutF.open(srcTmpFile.c_str(),std::ios::out);
   if(!srcOutF)
   {
     std::cerr<<"Error while printing file with source sentences."<<std::endl;
@@ -313,18 +320,21 @@ bool LightSentenceHandler::printSentPairs(const char *srcSentFile,
   }
 
       // Open file with target sentences
-  trgOutF.open(trgSentFile,std::ios::out);
+  trgOutF.open(trgTmpFile.c_str(),std::ios::out);
   if(!trgOutF)
   {
     std::cerr<<"Error while printing file with target sentences."<<std::endl;
+    remove(srcTmpFile.c_str());
     return THOT_ERROR;
   }
 
       // Open file with sentence counts
-  countsOutF.open(sentCountsFile,std::ios::out);
+  countsOutF.open(countsTmpFile.c_str(),std::ios::out);
   if(!countsOutF)
   {
     std::cerr<<"Error while printing file with sentence counts."<<std::endl;
+    remove(srcTmpFile.c_str());
+    remove(trgTmpFile.c_str());
     return THOT_ERROR;
   }
 
@@ -361,9 +371,15 @@ bool LightSentenceHandler::printSentPairs(const char *srcSentFile,
   srcOutF.close();
   trgOutF.close();
   countsOutF.close();
-  if(srcOutF.fail() || trgOutF.fail() || countsOutF.fail())
+  if(srcOutF.fail() || trgOutF.fail() || countsOutF.fail()
+     || rename(srcTmpFile.c_str(),srcSentFile)!=0
+     || rename(trgTmpFile.c_str(),trgSentFile)!=0
+     || rename(countsTmpFile.c_str(),sentCountsFile)!=0)
   {
     std::cerr<<"Error while printing sentence pairs."<<std::endl;
+    remove(srcTmpFile.c_str());
+    remove(trgTmpFile.c_str());
+    remove(countsTmpFile.c_str());
     return THOT_ERROR;
   }
   
-- 
2.43.0


From f054a39e8c4c2cf9fb2904223deee79361f12665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:05 +0000
Subject: [PATCH 37/61] fix: crash or lost request when the constraints of a
 JSON source sentence are malformed

---
 src/stack_dec/JsonTranslationMetadata.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/stack_dec/JsonTranslationMetadata.h b/src/stack_dec/JsonTranslationMetadata.h
index ebf0ea6..4556f74 100644
--- a/src/stack_dec/JsonTranslationMetadata.h
+++ b/src/stack_dec/JsonTranslationMetadata.h
@@ -158,17 +158,18 @@ void JsonTranslationMetadata<SCORE_INFO>::obtainTransConstraints(std::string raw
             std::vector<std::pair<std::string, std::string> > translations;
             for(picojson::array::iterator iter = tags.begin(); iter != tags.end(); iter++)
             {
-              bool success=true;
+                  // Check if segmentation constraint is an object
+              bool success=(*iter).is<picojson::object>();
               
                   // Check if translation field exists
               std::string translation;
-              if((*iter).get("translation").is<std::string>())
+              if(success && (*iter).get("translation").is<std::string>())
                 translation = (*iter).get("translation").get<std::string>();
               else
                 success=false;
 
               std::string original;
-              if((*iter).get("original").is<std::string>())
+              if(success && (*iter).get("original").is<std::string>())
                 original = (*iter).get("original").get<std::string>();
               else
                 success=false;
@@ -316,7 +317,7 @@ bool JsonTranslationMetadata<SCORE_INFO>::isPhraseInSentence(std::vector<std::st
   if(phrase.empty())
     return true;
 
-  if(startPosition + phrase.size() - 1 > srcSentVec.size())
+  if(startPosition + phrase.size() > srcSentVec.size())
     return false;  // Sentence is too short to contain phrase
   
   for(unsigned int i = 0; i < phrase.size(); i++)
-- 
2.43.0


From f7c930c9959eb22bce2ace170d3b98f01a8ec70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:16 +0000
Subject: [PATCH 38/61] fix: coverage of a reference checked under the
 constraints of the user's previous translation

---
 src/stack_dec/_pbTransModel.h          | 9 +++++++++
 src/stack_dec/_phraseBasedTransModel.h | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/stack_dec/_pbTransModel.h b/src/stack_dec/_pbTransModel.h
index 0050dab..c8e0836 100644
--- a/src/stack_dec/_pbTransModel.h
+++ b/src/stack_dec/_pbTransModel.h
@@ -536,6 +536,9 @@ void _pbTransModel<HYPOTHESIS>::pre_trans_actions_ref(std::string srcsent,
       // Set state info
   state=MODEL_TRANSREF_STATE;
 
+      // Discard constraints of the sentence that was translated before
+  this->trMetadataPtr->clear();
+
       // Store source sentence to be translated
   pbtmInputVars.srcSentVec=StrProcUtils::stringToStringVector(srcsent);
 
@@ -587,6 +590,9 @@ void _pbTransModel<HYPOTHESIS>::pre_trans_actions_ver(std::string srcsent,
       // Set state info
   state=MODEL_TRANSVER_STATE;
 
+      // Discard constraints of the sentence that was translated before
+  this->trMetadataPtr->clear();
+
       // Store source sentence to be translated
   pbtmInputVars.srcSentVec=StrProcUtils::stringToStringVector(srcsent);
 
@@ -638,6 +644,9 @@ void _pbTransModel<HYPOTHESIS>::pre_trans_actions_prefix(std::string srcsent,
       // Set state info
   state=MODEL_TRANSPREFIX_STATE;
 
+      // Discard constraints of the sentence that was translated before
+  this->trMetadataPtr->clear();
+
       // Store source sentence to be translated
   pbtmInputVars.srcSentVec=StrProcUtils::stringToStringVector(srcsent);
 
diff --git a/src/stack_dec/_phraseBasedTransModel.h b/src/stack_dec/_phraseBasedTransModel.h
index aa0dbc2..d564293 100644
--- a/src/stack_dec/_phraseBasedTransModel.h
+++ b/src/stack_dec/_phraseBasedTransModel.h
@@ -1344,6 +1344,9 @@ void _phraseBasedTransModel<HYPOTHESIS>::pre_trans_actions_ref(std::string srcse
         // Set state info
   state=MODEL_TRANSREF_STATE;
 
+      // Discard constraints of the sentence that was translated before
+  this->trMetadataPtr->clear();
+
       // Store source sentence to be translated
   pbtmInputVars.srcSentVec=StrProcUtils::stringToStringVector(srcsent);
 
@@ -1395,6 +1398,9 @@ void _phraseBasedTransModel<HYPOTHESIS>::pre_trans_actions_ver(std::string srcse
         // Set state info
   state=MODEL_TRANSVER_STATE;
 
+      // Discard constraints of the sentence that was translated before
+  this->trMetadataPtr->clear();
+
       // Store source sentence to be translated
   pbtmInputVars.srcSentVec=StrProcUtils::stringToStringVector(srcsent);
 
@@ -1446,6 +1452,9 @@ void _phraseBasedTransModel<HYPOTHESIS>::pre_trans_actions_prefix(std::string sr
       // Set state info
   state=MODEL_TRANSPREFIX_STATE;
 
+      // Discard constraints of the sentence that was translated before
+  this->trMetadataPtr->clear();
+
       // Store source sentence to be translated
   pbtmInputVars.srcSentVec=StrProcUtils::stringToStringVector(srcsent);
 
-- 
2.43.0


From 304555398a8cca0a79b09d497f783926b098eebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:37 +0000
Subject: [PATCH 39/61] fix: log lines about precomputed word graphs mixed with
 those of other requests

---
 src/error_correction/WordGraph.cc |  5 +++--
 src/stack_dec/ThotDecoder.cc      | 12 ++++++------
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/error_correction/WordGraph.cc b/src/error_correction/WordGraph.cc
index 14e9c2f..cd7be7b 100644
--- a/src/error_correction/WordGraph.cc
+++ b/src/error_correction/WordGraph.cc
@@ -25,6 +25,7 @@ along with this program; If not, see <http://www.gnu.org/licenses/>.
 //--------------- Include files --------------------------------------
 
 #include "WordGraph.h"
+#include "StdCerrThreadSafePrint.h"
 
 //--------------- WordGraph class function definitions
 
@@ -1239,12 +1240,12 @@ bool WordGraph::load(const char * filename)
   
   if(awk.open(filename)==THOT_ERROR)
   {
-    std::cerr<<"Error while opening word graph file: "<<filename<<"\n";
+    StdCerrThreadSafe<<"Error while opening word graph file: "<<filename<<"\n";
     return THOT_ERROR;
   }
   else
   {
-    std::cerr<<"Reading word graph from file: "<<filename<<"\n";
+    StdCerrThreadSafe<<"Reading word graph from file: "<<filename<<"\n";
     
         // Clear word graph
     clear();
diff --git a/src/stack_dec/ThotDecoder.cc b/src/stack_dec/ThotDecoder.cc
index 15471f7..78aff7a 100644
--- a/src/stack_dec/ThotDecoder.cc
+++ b/src/stack_dec/ThotDecoder.cc
@@ -2248,10 +2248,10 @@ std::string ThotDecoder::translateSentenceAux(size_t idx,
         // Print component weight info to the error output
     if(verbose)
     {
-      StdCerrThreadSafeCond(printTid)<<"Original word graph component vector:";
+      std::ostringstream weightStream;
       for(unsigned int i=0;i<originalWgCompWeights.size();++i)
-        StdCerrThreadSafeCond(printTid)<<" "<<originalWgCompWeights[i].first<<": "<<originalWgCompWeights[i].second<<";";
-      StdCerrThreadSafeCond(printTid)<<std::endl;
+        weightStream<<" "<<originalWgCompWeights[i].first<<": "<<originalWgCompWeights[i].second<<";";
+      StdCerrThreadSafeCond(printTid)<<"Original word graph component vector:"<<weightStream.str()<<std::endl;
     }
 
         // Set current component weights (this operation causes a
@@ -2264,10 +2264,10 @@ std::string ThotDecoder::translateSentenceAux(size_t idx,
         // Print component weight info to the error output
     if(verbose)
     {
-      StdCerrThreadSafeCond(printTid)<<"New word graph component vector:";
+      std::ostringstream weightStream;
       for(unsigned int i=0;i<currCompWeights.size();++i)
-        StdCerrThreadSafeCond(printTid)<<" "<<currCompWeights[i].first<<": "<<currCompWeights[i].second<<";";
-      StdCerrThreadSafeCond(printTid)<<std::endl;
+        weightStream<<" "<<currCompWeights[i].first<<": "<<currCompWeights[i].second<<";";
+      StdCerrThreadSafeCond(printTid)<<"New word graph component vector:"<<weightStream.str()<<std::endl;
     }
     
         // Obtain best path
-- 
2.43.0


From 6e4ddc7bf22657806d042e11633ea02d2a83234f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:08 +0000
Subject: [PATCH 40/61] fix: synchronization error although all jobs of a
 script ended correctly

The files that jobs write when they end were looked for before asking for
the jobs that are still running, so a job that ended in between was taken
for one that failed. The number of pending processes was also accumulated
over the iterations of the loop.
---
 utils/nlp_common/thot_simple_sched_lib.sh | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/utils/nlp_common/thot_simple_sched_lib.sh b/utils/nlp_common/thot_simple_sched_lib.sh
index a361251..b621502 100644
--- a/utils/nlp_common/thot_simple_sched_lib.sh
+++ b/utils/nlp_common/thot_simple_sched_lib.sh
@@ -169,7 +169,19 @@ pbs_sync()
     end=0
     while [ $end -ne 1 ]; do
         sleep 3
+
+        # Obtain number of running processes (this is done before looking
+        # for the files that they write when they end)
+        num_running_procs=0
+        for jid in ${job_ids}; do
+            job_unknown=`job_is_unknown ${jid}`
+            if [ ${job_unknown} -eq 0 ]; then
+                num_running_procs=`expr ${num_running_procs} + 1`
+            fi
+        done
+
         end=1
+        num_pending_procs=0
         # Check if all processes have finished
         for f in "${file_array[@]}"; do
             if [ ! -f "${f}_end" ]; then
@@ -179,13 +191,6 @@ pbs_sync()
         done
 
         # Sanity check
-        num_running_procs=0
-        for jid in ${job_ids}; do
-            job_unknown=`job_is_unknown ${jid}`
-            if [ ${job_unknown} -eq 0 ]; then
-                num_running_procs=`expr ${num_running_procs} + 1`
-            fi
-        done
         if [ ${num_running_procs} -eq 0 -a ${num_pending_procs} -ge 1 ]; then
             return 1
         fi
-- 
2.43.0


From e1fd2344c34626187d6a317765ab8064fdb23607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:10 +0000
Subject: [PATCH 41/61] fix: refused job submissions unnoticed by the scripts
 that use a cluster

When qsub failed, the job was missing in the list of jobs to wait for, and
the script went on and ended with success without part of the results.
---
 utils/nlp_common/thot_adv_sched_lib.sh    | 8 ++++++++
 utils/nlp_common/thot_simple_sched_lib.sh | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/utils/nlp_common/thot_adv_sched_lib.sh b/utils/nlp_common/thot_adv_sched_lib.sh
index e34dbbb..6b6dd07 100644
--- a/utils/nlp_common/thot_adv_sched_lib.sh
+++ b/utils/nlp_common/thot_adv_sched_lib.sh
@@ -82,6 +82,10 @@ launch()
             create_script "${scripts_dir}/${program}${suffix}.sh" "$program"
             # Execute qsub command
             local jid=$("${QSUB}" ${QSUB_TERSE_OPT} ${qs_opts} "${scripts_dir}/${program}${suffix}.sh" | "${TAIL}" -1)
+            if [ -z "${jid}" ]; then
+                echo "Error: ${program} could not be submitted" >&2
+                return 1
+            fi
 
             # Set value of output variable
             eval "${outvar}='${jid}'"
@@ -104,6 +108,10 @@ launch()
             # ensures that job dependencies are defined over existing
             # jobs
             local jid=$("${QSUB}" ${QSUB_TERSE_OPT} -h ${depend_opt} ${qs_opts} "${scripts_dir}/${program}${suffix}.sh" | ${TAIL} -1)
+            if [ -z "${jid}" ]; then
+                echo "Error: ${program} could not be submitted" >&2
+                return 1
+            fi
 
             # Set value of output variable
             eval "${outvar}='${jid}'"
diff --git a/utils/nlp_common/thot_simple_sched_lib.sh b/utils/nlp_common/thot_simple_sched_lib.sh
index b621502..582f30d 100644
--- a/utils/nlp_common/thot_simple_sched_lib.sh
+++ b/utils/nlp_common/thot_simple_sched_lib.sh
@@ -80,6 +80,10 @@ launch()
         eval "${outvar}=$!"
     else
         local jid=$("$QSUB" ${QSUB_TERSE_OPT} ${qs_opts} "$file" | "${TAIL}" -1)
+        if [ -z "${jid}" ]; then
+            echo "Error: ${file} could not be submitted" >&2
+            return 1
+        fi
         eval "${outvar}='${jid}'"
     fi
     ###################
-- 
2.43.0


From 60d809048bb0dabab0cc6960c810e707b1bc3647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:10 +0000
Subject: [PATCH 42/61] fix: removed translation options of the last target
 phrase not accounted for

thot_get_nbest_for_trg -p adds an entry with the counts of the options that
are removed for each target phrase, except for the last one of the table.
---
 utils/phrase_models/thot_get_nbest_for_trg.sh | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/utils/phrase_models/thot_get_nbest_for_trg.sh b/utils/phrase_models/thot_get_nbest_for_trg.sh
index b492d5d..93d2707 100644
--- a/utils/phrase_models/thot_get_nbest_for_trg.sh
+++ b/utils/phrase_models/thot_get_nbest_for_trg.sh
@@ -57,7 +57,12 @@ filter_nbest()
                                 else remainder+=$NF
                                }
                               }
-                             }'
+                             }
+                        END{
+                            # account for the last block of translation options
+                            if(p && remainder>0)
+                              printf "%s ||| <UNUSED_WORD> ||| 0 %.8f\n",trgToProcess,remainder
+                           }'
 }
 
 if [ $# -lt 2 -o $# -gt 7 ]; then
-- 
2.43.0


From eb428c9cd0e2cfd571bb479d98c48434e483a816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:11 +0000
Subject: [PATCH 43/61] fix: failed steps of scripts that sort and filter
 phrase tables unnoticed

---
 utils/phrase_models/thot_filter_ttable.sh         | 5 ++++-
 utils/phrase_models/thot_get_nbest_for_trg.sh     | 5 ++++-
 utils/phrase_models/thot_pbs_get_nbest_for_trg.sh | 2 +-
 utils/phrase_models/thot_sort_ttable.sh           | 5 ++++-
 4 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/utils/phrase_models/thot_filter_ttable.sh b/utils/phrase_models/thot_filter_ttable.sh
index 2a2bff0..c1bd050 100644
--- a/utils/phrase_models/thot_filter_ttable.sh
+++ b/utils/phrase_models/thot_filter_ttable.sh
@@ -5,6 +5,9 @@
 # that sets the maximum number of translation options for each target
 # phrase that are considered during a translation process.
 
+# INCLUDE BASH LIBRARIES
+. "${bindir}"/thot_general_lib || exit 1
+
 N_DEFAULT=20
 if [ $# -ne 2 -a $# -ne 4 -a $# -ne 6 -a $# -ne 8 ]; then
     echo "Usage: thot_filter_ttable [-t <string>]" >&2
@@ -76,5 +79,5 @@ else
 
     # Filter translation table
     "$bindir"/thot_filter_ttable_given_corpus "${ttable_file}" "${test_corpus_file}" |\
-        "$bindir"/thot_get_nbest_for_trg -n ${n_val} -p -T "${tmpdir}"
+        "$bindir"/thot_get_nbest_for_trg -n ${n_val} -p -T "${tmpdir}" ; ${PIPE_FAIL} || exit 1
 fi
diff --git a/utils/phrase_models/thot_get_nbest_for_trg.sh b/utils/phrase_models/thot_get_nbest_for_trg.sh
index 93d2707..dcd363a 100644
--- a/utils/phrase_models/thot_get_nbest_for_trg.sh
+++ b/utils/phrase_models/thot_get_nbest_for_trg.sh
@@ -10,6 +10,9 @@
 # NOTE: here, source phrases are those that appear in first place in
 # the phrase table
 
+# INCLUDE BASH LIBRARIES
+. "${bindir}"/thot_general_lib || exit 1
+
 filter_nbest()
 {
     LC_NUMERIC="C" "${AWK}" -v n=${n_val} -v p=$p 'BEGIN{
@@ -118,5 +121,5 @@ else
         exit 1
     fi
     "${bindir}"/thot_flip_phr "${ttable_file}" | "${bindir}"/thot_sort_ttable -T "$tmpdir" | \
-        filter_nbest | "${bindir}"/thot_flip_phr
+        filter_nbest | "${bindir}"/thot_flip_phr ; ${PIPE_FAIL} || exit 1
 fi
diff --git a/utils/phrase_models/thot_pbs_get_nbest_for_trg.sh b/utils/phrase_models/thot_pbs_get_nbest_for_trg.sh
index 6491f0c..6b46c3e 100644
--- a/utils/phrase_models/thot_pbs_get_nbest_for_trg.sh
+++ b/utils/phrase_models/thot_pbs_get_nbest_for_trg.sh
@@ -21,7 +21,7 @@ get_nbest_for_trg()
     echo "** Processing file ${ttable_file} (started at "`date`")..." >> "$SDIR"/log
 
     cat "${ttable_file}" 2> "$SDIR"/err | \
-        "$bindir"/thot_get_nbest_for_trg -n ${n_val} -p -T "$TMP" 2>> "$SDIR"/err > "$outfile" ; ${PIPEFAIL} || \
+        "$bindir"/thot_get_nbest_for_trg -n ${n_val} -p -T "$TMP" 2>> "$SDIR"/err > "$outfile" ; ${PIPE_FAIL} || \
         { echo "Error while executing get_nbest_for_trg" >> "$SDIR"/log ; return 1 ; }
 
     # Write date to log file
diff --git a/utils/phrase_models/thot_sort_ttable.sh b/utils/phrase_models/thot_sort_ttable.sh
index e84181d..56c9504 100644
--- a/utils/phrase_models/thot_sort_ttable.sh
+++ b/utils/phrase_models/thot_sort_ttable.sh
@@ -3,6 +3,9 @@
 
 # Sorts a given thot ttable in order to binarize it.
 
+# INCLUDE BASH LIBRARIES
+. "${bindir}"/thot_general_lib || exit 1
+
 ########
 put_st_lengths()
 {
@@ -110,5 +113,5 @@ else
         SORT_TMP="/tmp"
     fi
 
-    put_st_lengths "${ttable_file}" | LC_ALL=C "${SORT}" -T "${SORT_TMP}" ${sortpars} | remove_st_lengths
+    put_st_lengths "${ttable_file}" | LC_ALL=C "${SORT}" -T "${SORT_TMP}" ${sortpars} | remove_st_lengths ; ${PIPE_FAIL} || exit 1
 fi
-- 
2.43.0


From 5bafa215679b14d4a6f08c2c140b494cf08936d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:11 +0000
Subject: [PATCH 44/61] fix: failed steps of n-gram count scripts unnoticed and
 temporary directory left behind

---
 utils/incr_models/thot_get_ngram_counts.sh     | 7 +++++--
 utils/incr_models/thot_get_ngram_counts_mr.sh  | 8 ++++----
 utils/incr_models/thot_pbs_get_ngram_counts.sh | 4 ++--
 3 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/utils/incr_models/thot_get_ngram_counts.sh b/utils/incr_models/thot_get_ngram_counts.sh
index e2531df..b4d0ef5 100644
--- a/utils/incr_models/thot_get_ngram_counts.sh
+++ b/utils/incr_models/thot_get_ngram_counts.sh
@@ -3,6 +3,9 @@
 
 # Extract n-gram counts from a monolingual corpus.
 
+# INCLUDE BASH LIBRARIES
+. "${bindir}"/thot_general_lib || exit 1
+
 replace_first_word_occurrence_by_unk()
 {
     "${AWK}" '{
@@ -190,7 +193,7 @@ fi
 # parameters are ok
 
 if [ $unk_given -eq 0 ]; then
-    cat "$corpus" | get_counts ${n_val}
+    cat "$corpus" | get_counts ${n_val} ; ${PIPE_FAIL} || exit 1
 else
-    cat "$corpus" | replace_first_word_occurrence_by_unk | get_counts ${n_val}
+    cat "$corpus" | replace_first_word_occurrence_by_unk | get_counts ${n_val} ; ${PIPE_FAIL} || exit 1
 fi
diff --git a/utils/incr_models/thot_get_ngram_counts_mr.sh b/utils/incr_models/thot_get_ngram_counts_mr.sh
index 12d421b..460e41b 100644
--- a/utils/incr_models/thot_get_ngram_counts_mr.sh
+++ b/utils/incr_models/thot_get_ngram_counts_mr.sh
@@ -175,17 +175,17 @@ set_tmp_dir || exit 1
 
 # Process -unk option
 if [ ${unk_given} -eq 1 ]; then
-    TMPF_PCORPUS=`"${MKTEMP}" "$tdir/pcorpus.XXXXXX"`
-    trap 'rm "${TMPF_PCORPUS}" "${TMPF_HIST_INFO}" 2>/dev/null' EXIT
+    TMPF_PCORPUS=`"${MKTEMP}" "$tdir/pcorpus.XXXXXX"` || exit 1
+    trap 'rm "${TMPF_PCORPUS}" 2>/dev/null; if [ ${debug} -eq 0 ]; then rm -rf "$TMP"* 2>/dev/null; fi' EXIT
 
-    cat "$corpus" | replace_first_word_occurrence_by_unk > "${TMPF_PCORPUS}"
+    cat "$corpus" | replace_first_word_occurrence_by_unk > "${TMPF_PCORPUS}" ; ${PIPE_FAIL} || exit 1
     proc_corpus=${TMPF_PCORPUS}
 else
     proc_corpus=$corpus
 fi
 
 # Split corpus into fragments of fixed size
-"${SPLIT}" -a 4 -l ${fragm_size} "$proc_corpus" "$TMP/"
+"${SPLIT}" -a 4 -l ${fragm_size} "$proc_corpus" "$TMP/" || exit 1
 
 # Process fragments
 c=1
diff --git a/utils/incr_models/thot_pbs_get_ngram_counts.sh b/utils/incr_models/thot_pbs_get_ngram_counts.sh
index 28143e8..79a2b92 100644
--- a/utils/incr_models/thot_pbs_get_ngram_counts.sh
+++ b/utils/incr_models/thot_pbs_get_ngram_counts.sh
@@ -108,10 +108,10 @@ replace_first_word_occurrence_by_unk()
 process_unk_opt()
 {
     if [ ${unk_given} -eq 1 ]; then
-        TMPF_PCORPUS=`"${MKTEMP}" "$tdir"/pcorpus.XXXXXX`
+        TMPF_PCORPUS=`"${MKTEMP}" "$tdir"/pcorpus.XXXXXX` || return 1
         trap 'rm "${TMPF_PCORPUS}" "${TMPF_HIST_INFO}" 2>/dev/null' EXIT
         
-        cat "$corpus" | replace_first_word_occurrence_by_unk > "${TMPF_PCORPUS}" || return 1
+        cat "$corpus" | replace_first_word_occurrence_by_unk > "${TMPF_PCORPUS}" ; ${PIPE_FAIL} || return 1
         proc_corpus=${TMPF_PCORPUS}
     else
         proc_corpus=$corpus
-- 
2.43.0


From 727705c25762edc86b31594634345ab08e812199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:11 +0000
Subject: [PATCH 45/61] fix: jobs submitted although their scripts could not be
 written

---
 utils/nlp_common/thot_adv_sched_lib.sh    | 6 +++---
 utils/nlp_common/thot_simple_sched_lib.sh | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/utils/nlp_common/thot_adv_sched_lib.sh b/utils/nlp_common/thot_adv_sched_lib.sh
index 6b6dd07..cf6aca8 100644
--- a/utils/nlp_common/thot_adv_sched_lib.sh
+++ b/utils/nlp_common/thot_adv_sched_lib.sh
@@ -45,7 +45,7 @@ create_script()
     local command=$2
 
     # Write environment variables
-    set | exclude_readonly_vars > ${name}
+    set | exclude_readonly_vars > ${name} ; ${PIPE_FAIL} || return 1
 
     # Write functions if necessary
     "$GREP" "()" "${name}" -A1 | "$GREP" "{" > /dev/null || write_functions >> ${name}
@@ -79,7 +79,7 @@ launch()
         if [ ${sync_sleep} -eq 1 ]; then
             # The sleep command is being used
             # Create script
-            create_script "${scripts_dir}/${program}${suffix}.sh" "$program"
+            create_script "${scripts_dir}/${program}${suffix}.sh" "$program" || return 1
             # Execute qsub command
             local jid=$("${QSUB}" ${QSUB_TERSE_OPT} ${qs_opts} "${scripts_dir}/${program}${suffix}.sh" | "${TAIL}" -1)
             if [ -z "${jid}" ]; then
@@ -94,7 +94,7 @@ launch()
             # dependencies between jobs when executing qsub
             
             # Create script
-            create_script "${scripts_dir}/${program}${suffix}.sh" $program
+            create_script "${scripts_dir}/${program}${suffix}.sh" $program || return 1
 
             # Define qsub option declaring job dependencies
             local depend_opt=""
diff --git a/utils/nlp_common/thot_simple_sched_lib.sh b/utils/nlp_common/thot_simple_sched_lib.sh
index 582f30d..68da407 100644
--- a/utils/nlp_common/thot_simple_sched_lib.sh
+++ b/utils/nlp_common/thot_simple_sched_lib.sh
@@ -51,7 +51,7 @@ create_script()
     local command=$2
 
     # Write environment variables
-    set | exclude_readonly_vars > "${name}"
+    set | exclude_readonly_vars > "${name}" ; ${PIPE_FAIL} || return 1
 
     # Write functions if necessary
     "$GREP" "()" "${name}" -A1 | "$GREP" "{" > /dev/null || write_functions >> "${name}"
-- 
2.43.0


From ca9cc3c5808b5cbdd0135b7ab91ff86cda80c380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:11 +0000
Subject: [PATCH 46/61] fix: parallel phrase model estimation ignores -mon and
 failures while merging

---
 utils/phrase_models/thot_gen_phr_model_mr.sh  | 5 +++++
 utils/phrase_models/thot_pbs_gen_phr_model.sh | 9 +++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/utils/phrase_models/thot_gen_phr_model_mr.sh b/utils/phrase_models/thot_gen_phr_model_mr.sh
index 2a6dbf0..659c84a 100644
--- a/utils/phrase_models/thot_gen_phr_model_mr.sh
+++ b/utils/phrase_models/thot_gen_phr_model_mr.sh
@@ -22,6 +22,7 @@ version()
 usage()
 {
     echo "Usage: thot_gen_phr_model_mr {-g <string> [-brf]"
+    echo "            [-mon]"
     echo "            [-m <int>]"
     echo "            [-c <float>]"
     echo "            {-o <string>} [-v | -v1 ]"
@@ -33,6 +34,8 @@ usage()
     echo "-brf                            Obtain bisegmentation-based RF model (RF by"
     echo "                                default)."
     echo ""
+    echo "-mon                            Obtain monotone model (non-monotone by default)."
+    echo ""
     echo "-m <int>                        Set maximum target phrase length (target is the"
     echo "                                target language of the GIZA alignment file)."
     echo ""
@@ -119,6 +122,8 @@ while [ $# -ne 0 ]; do
                 cutoff=$1
             fi
             ;;
+        "-mon") thot_pars="$thot_pars -mon"
+            ;;
         "-debug") debug="-debug"
             ;;
         "-v") thot_pars="$thot_pars -v"
diff --git a/utils/phrase_models/thot_pbs_gen_phr_model.sh b/utils/phrase_models/thot_pbs_gen_phr_model.sh
index 575af5c..1ef9733 100644
--- a/utils/phrase_models/thot_pbs_gen_phr_model.sh
+++ b/utils/phrase_models/thot_pbs_gen_phr_model.sh
@@ -104,8 +104,9 @@ merge_gen_phr()
         { echo "Error while executing merge_gen_phr" >> "$SDIR"/log ; return 1 ; }
 
     if [ "${estimation}" = "BRF" ]; then
-        cat "$SDIR"/*.seglentable > "$tmpdir"/${$}seglentable
-        "${bindir}"/thot_merge_seglen_counts "$tmpdir"/${$}seglentable > "${output}".seglentable
+        { cat "$SDIR"/*.seglentable > "$tmpdir"/${$}seglentable && \
+            "${bindir}"/thot_merge_seglen_counts "$tmpdir"/${$}seglentable > "${output}".seglentable ; } 2>> "$SDIR"/merge.log || \
+            { rm -f "$tmpdir"/${$}seglentable ; echo "Error while executing merge_gen_phr" >> "$SDIR"/log ; return 1 ; }
         rm "$tmpdir"/${$}seglentable
     fi
     
@@ -359,8 +360,8 @@ if [ $sortm = "yes" ]; then
     mflag="-m"
 fi
 
-create_script "$SDIR"/merge_gen_phr merge_gen_phr
-launch "$SDIR"/merge_gen_phr job_id
+create_script "$SDIR"/merge_gen_phr merge_gen_phr || exit 1
+launch "$SDIR"/merge_gen_phr job_id || exit 1
     
 ### Check that all queued jobs are finished
 sync "$SDIR"/merge_gen_phr "${job_id}" || { gen_log_err_files ; report_errors ; exit 1; }
-- 
2.43.0


From 88130b863e479a0098e870f3a4da55810837ccdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:11 +0000
Subject: [PATCH 47/61] fix: thot_decoder and thot_aligner ignore failures
 while moving word graphs

---
 utils/stack_dec/thot_aligner.sh | 12 ++++++------
 utils/stack_dec/thot_decoder.sh | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/utils/stack_dec/thot_aligner.sh b/utils/stack_dec/thot_aligner.sh
index 2890733..196e782 100644
--- a/utils/stack_dec/thot_aligner.sh
+++ b/utils/stack_dec/thot_aligner.sh
@@ -134,9 +134,9 @@ move_wgs()
             pref=${f%.wg}
             num=${pref#"$SDIR"/wg_"${fragm}"\_}
             num=`expr $num + $incr`
-            num=`echo $num | "$AWK" '{printf"%06d",$1}'`
-            mv "$f" "${wgpref}"_${num}.wg
-            mv "$pref".idx "${wgpref}"_${num}.idx
+            num=`echo $num | "$AWK" '{printf"%06d",$1}'` || return 1
+            mv "$f" "${wgpref}"_${num}.wg || return 1
+            mv "$pref".idx "${wgpref}"_${num}.idx || return 1
             numfiles=`expr $numfiles + 1`
         done
         incr=`expr $incr + $numfiles`
@@ -409,10 +409,10 @@ fi
 
 if [ ! -d "${sdir}" ]; then
     echo "Error: shared directory does not exist" >&2
-    return 1;
+    exit 1;
 fi
 
-SDIR=`"${MKTEMP}" -d "${sdir}"/thot_aligner_XXXXXX`
+SDIR=`"${MKTEMP}" -d "${sdir}"/thot_aligner_XXXXXX` || { echo "Error: shared directory cannot be created" >&2 ; exit 1; }
 
 # remove temp directories on exit
 if [ "$debug" != "-debug" ]; then
@@ -481,7 +481,7 @@ sync "${qs_alig}" "${jids}" || { gen_log_err_files ; report_errors ; exit 1; }
 
 # move word graph files if generated
 if [ ${wg_given} -eq 1 ]; then
-    move_wgs
+    move_wgs || { echo "Error while moving word graphs" >&2 ; exit 1; }
 fi
 
 # merge files
diff --git a/utils/stack_dec/thot_decoder.sh b/utils/stack_dec/thot_decoder.sh
index 0cfc678..3570238 100644
--- a/utils/stack_dec/thot_decoder.sh
+++ b/utils/stack_dec/thot_decoder.sh
@@ -135,9 +135,9 @@ move_wgs()
             pref=${f%.wg}
             num=${pref#"$SDIR"/wg_"${fragm}"\_}
             num=`expr $num + $incr`
-            num=`echo $num | "$AWK" '{printf"%06d",$1}'`
-            mv "$f" "${wgpref}"_${num}.wg
-            mv "$pref".idx "${wgpref}"_${num}.idx
+            num=`echo $num | "$AWK" '{printf"%06d",$1}'` || return 1
+            mv "$f" "${wgpref}"_${num}.wg || return 1
+            mv "$pref".idx "${wgpref}"_${num}.idx || return 1
             numfiles=`expr $numfiles + 1`
         done
         incr=`expr $incr + $numfiles`
@@ -382,10 +382,10 @@ fi
 
 if [ ! -d "${sdir}" ]; then
     echo "Error: shared directory does not exist" >&2
-    return 1;
+    exit 1;
 fi
 
-SDIR=`"${MKTEMP}" -d "${sdir}"/thot_decoder_XXXXXX`
+SDIR=`"${MKTEMP}" -d "${sdir}"/thot_decoder_XXXXXX` || { echo "Error: shared directory cannot be created" >&2 ; exit 1; }
 
 # remove temp directories on exit
 if [ "$debug" != "-debug" ]; then
@@ -449,7 +449,7 @@ sync "${qs_trans}" "${jids}" || { gen_log_err_files ; report_errors ; exit 1; }
 
 # move word graph files if generated
 if [ ${wg_given} -eq 1 ]; then
-    move_wgs
+    move_wgs || { echo "Error while moving word graphs" >&2 ; exit 1; }
 fi
 
 # merge files
-- 
2.43.0


From 318ccf8d6bd137f3cbbbf792821fb1ed62d2f2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:17 +0000
Subject: [PATCH 48/61] fix: thot_gen_batch_sw_model_mr fails with more than
 one chunk and iteration

---
 utils/sw_models/thot_gen_batch_sw_model_mr.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/sw_models/thot_gen_batch_sw_model_mr.sh b/utils/sw_models/thot_gen_batch_sw_model_mr.sh
index 3092d83..751eb75 100644
--- a/utils/sw_models/thot_gen_batch_sw_model_mr.sh
+++ b/utils/sw_models/thot_gen_batch_sw_model_mr.sh
@@ -435,7 +435,7 @@ create_filtered_model()
     filter_lex_table || return 1
 
     # Copy current alignment file
-    if [ ${chunk_id} -eq 1 -a ${alig_ext} != "none" ]; then 
+    if [ ${alig_ext} != "none" ]; then 
         cp "${curr_tables_dir}"/merged_alig_counts "${filtered_model_dir}"/model.${alig_ext}
     fi
 }
-- 
2.43.0


From ab42cf238661c20b5f353543e8944bc6349a5e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:26 +0000
Subject: [PATCH 49/61] fix: failed steps of the parallel training of alignment
 models unnoticed

---
 utils/nlp_common/thot_shuffle.sh              |  5 +-
 utils/sw_models/thot_gen_batch_sw_model_mr.sh | 55 ++++++++++---------
 .../sw_models/thot_pbs_gen_batch_sw_model.sh  | 37 +++++++------
 utils/sw_models/thot_pbs_gen_best_sw_alig.sh  |  4 +-
 4 files changed, 55 insertions(+), 46 deletions(-)

diff --git a/utils/nlp_common/thot_shuffle.sh b/utils/nlp_common/thot_shuffle.sh
index 3126943..f2182f3 100644
--- a/utils/nlp_common/thot_shuffle.sh
+++ b/utils/nlp_common/thot_shuffle.sh
@@ -3,6 +3,9 @@
 
 # Randomly reorders the lines of a file given a seed
 
+# INCLUDE BASH LIBRARIES
+. "${bindir}"/thot_general_lib || exit 1
+
 shuffle()
 {
     # Initialize variables
@@ -12,7 +15,7 @@ shuffle()
 
     # Shuffle file
     "$AWK" -v seed=${_seed} 'BEGIN{srand(seed)}{printf"%f %d %s\n",rand(),NR,$0}' ${_file} \
-        | LC_ALL=C "$SORT" -k1n -k2n -T "${_tdir}" | "$AWK" '{for(i=3;i<NF;++i) printf"%s ",$i; printf"%s\n",$NF}'
+        | LC_ALL=C "$SORT" -k1n -k2n -T "${_tdir}" | "$AWK" '{for(i=3;i<NF;++i) printf"%s ",$i; printf"%s\n",$NF}' ; ${PIPE_FAIL} || return 1
 }
 
 thot_shuffle_alt()
diff --git a/utils/sw_models/thot_gen_batch_sw_model_mr.sh b/utils/sw_models/thot_gen_batch_sw_model_mr.sh
index 751eb75..670853c 100644
--- a/utils/sw_models/thot_gen_batch_sw_model_mr.sh
+++ b/utils/sw_models/thot_gen_batch_sw_model_mr.sh
@@ -5,6 +5,9 @@
 # procedure maintains the space complexity of the training process under
 # control by using the map reduce technique.
 
+# INCLUDE BASH LIBRARIES
+. "${bindir}"/thot_general_lib || exit 1
+
 print_desc()
 {
     echo "thot_gen_batch_sw_model_mr written by Daniel Ortiz"
@@ -90,7 +93,7 @@ estimate_slmodel()
     else
         echo "+++ Estimating sentence length model..." >> "$TMP"/log
         echo "+++ Estimating sentence length model..." >&2
-        "${bindir}"/thot_gen_wigauss_slen_model "${srcf}" "${trgf}" > "${slmodel_dir}"/model
+        "${bindir}"/thot_gen_wigauss_slen_model "${srcf}" "${trgf}" > "${slmodel_dir}"/model || return 1
     fi
 }
 
@@ -98,15 +101,15 @@ define_init_model_info()
 {
     if [ ${l_given} -eq 0 ]; then
         # Create void corpus
-        "$TOUCH" "${init_model_dir}"/void_corpus
+        "$TOUCH" "${init_model_dir}"/void_corpus || return 1
     
         # Generate model for void corpus
         "${bindir}"/thot_gen_sw_model -s "${init_model_dir}"/void_corpus -t "${init_model_dir}"/void_corpus \
             ${lf_opt} ${af_opt} ${np_opt} -eb -n 1 -nl -o "${init_model_dir}"/model > "${init_model_dir}"/log 2>&1 || return 1
      
         # Add complete vocabularies
-        "${bindir}"/thot_get_swm_vocab "${srcf}" "NULL UNKNOWN_WORD <UNUSED_WORD>" > "${init_model_dir}"/model.svcb
-        "${bindir}"/thot_get_swm_vocab "${trgf}" "NULL UNKNOWN_WORD <UNUSED_WORD>" > "${init_model_dir}"/model.tvcb
+        "${bindir}"/thot_get_swm_vocab "${srcf}" "NULL UNKNOWN_WORD <UNUSED_WORD>" > "${init_model_dir}"/model.svcb || return 1
+        "${bindir}"/thot_get_swm_vocab "${trgf}" "NULL UNKNOWN_WORD <UNUSED_WORD>" > "${init_model_dir}"/model.tvcb || return 1
 
         # Create msinfo file
         echo "0" > "${init_model_dir}"/model.msinfo
@@ -182,24 +185,24 @@ sort_counts()
 sort_counts_text()
 {
     "${AWK}" -v c=$chunk_id '{printf"%s %s\n",$0,c}' "${models_per_chunk_dir}"/${out_chunk}.${lex_ext} | \
-        sort_lex_counts_text > "${curr_tables_dir}"/lex_counts_${out_chunk}
+        sort_lex_counts_text > "${curr_tables_dir}"/lex_counts_${out_chunk} ; ${PIPE_FAIL} || return 1
     if [ ${alig_ext} != "none" ]; then 
         "${AWK}" -v c=$chunk_id '{printf"%s %s\n",$0,c}' "${models_per_chunk_dir}"/${out_chunk}.${alig_ext} | \
-            sort_alig_counts_text > "${curr_tables_dir}"/alig_counts_${out_chunk}
+            sort_alig_counts_text > "${curr_tables_dir}"/alig_counts_${out_chunk} ; ${PIPE_FAIL} || return 1
     fi
 }
 
 sort_counts_bin()
 {
-    "${bindir}"/thot_sort_bin_ilextable -l "${models_per_chunk_dir}"/${out_chunk}.${lex_ext} > "${curr_tables_dir}"/lex_counts_${out_chunk}
+    "${bindir}"/thot_sort_bin_ilextable -l "${models_per_chunk_dir}"/${out_chunk}.${lex_ext} > "${curr_tables_dir}"/lex_counts_${out_chunk} || return 1
 
     if [ ${alig_ext} != "none" ]; then 
         case ${alig_ext} in
             "hmm_alignd") "${bindir}"/thot_sort_bin_ihmmatable \
-                -a "${models_per_chunk_dir}"/${out_chunk}.${alig_ext} > "${curr_tables_dir}"/alig_counts_${out_chunk}
+                -a "${models_per_chunk_dir}"/${out_chunk}.${alig_ext} > "${curr_tables_dir}"/alig_counts_${out_chunk} || return 1
                 ;;
             "ibm2_alignd") "${bindir}"/thot_sort_bin_iibm2atable \
-                -a "${models_per_chunk_dir}"/${out_chunk}.${alig_ext} > "${curr_tables_dir}"/alig_counts_${out_chunk}
+                -a "${models_per_chunk_dir}"/${out_chunk}.${alig_ext} > "${curr_tables_dir}"/alig_counts_${out_chunk} || return 1
                 ;;
         esac
     fi
@@ -220,7 +223,7 @@ proc_chunk()
         # Second iteration or greater
         
         # Create filtered model...
-        create_filtered_model
+        create_filtered_model || return 1
 
         # Remove previously existing files
         rm -rf "${models_per_chunk_dir}"/${out_chunk}*
@@ -276,7 +279,7 @@ merge_lex_counts()
 merge_lex_counts_text()
 {
     # Append and merge lex sorted counts
-    append_lex_sorted_counts_text | "${bindir}"/thot_merge_text_ilextable -ns -T "$TMP" > "${curr_tables_dir}"/merged_lex_counts || return 1
+    append_lex_sorted_counts_text | "${bindir}"/thot_merge_text_ilextable -ns -T "$TMP" > "${curr_tables_dir}"/merged_lex_counts ; ${PIPE_FAIL} || return 1
 
     # Delete lex sorted counts
     rm "${curr_tables_dir}"/lex_counts_*
@@ -304,9 +307,9 @@ merge_alig_counts_text()
 {
     # Append and merge alig sorted counts
     case ${alig_ext} in
-        "hmm_alignd") append_alig_sorted_counts_text | "${bindir}"/thot_merge_text_ihmmatable -ns -T "$TMP" > "${curr_tables_dir}"/merged_alig_counts || return 1
+        "hmm_alignd") append_alig_sorted_counts_text | "${bindir}"/thot_merge_text_ihmmatable -ns -T "$TMP" > "${curr_tables_dir}"/merged_alig_counts ; ${PIPE_FAIL} || return 1
             ;;
-        "ibm2_alignd") append_alig_sorted_counts_text | "${bindir}"/thot_merge_text_iibm2atable -ns -T "$TMP" > "${curr_tables_dir}"/merged_alig_counts || return 1
+        "ibm2_alignd") append_alig_sorted_counts_text | "${bindir}"/thot_merge_text_iibm2atable -ns -T "$TMP" > "${curr_tables_dir}"/merged_alig_counts ; ${PIPE_FAIL} || return 1
             ;;
     esac
 
@@ -320,9 +323,9 @@ merge_alig_counts_bin()
 {
     # Merge alig sorted counts
     case ${alig_ext} in
-        "hmm_alignd") "${bindir}"/thot_merge_bin_ihmmatable "${curr_tables_dir}"/alig_counts_* > "${curr_tables_dir}"/merged_alig_counts
+        "hmm_alignd") "${bindir}"/thot_merge_bin_ihmmatable "${curr_tables_dir}"/alig_counts_* > "${curr_tables_dir}"/merged_alig_counts || return 1
             ;;
-        "ibm2_alignd") "${bindir}"/thot_merge_bin_iibm2atable "${curr_tables_dir}"/alig_counts_*  > "${curr_tables_dir}"/merged_alig_counts
+        "ibm2_alignd") "${bindir}"/thot_merge_bin_iibm2atable "${curr_tables_dir}"/alig_counts_*  > "${curr_tables_dir}"/merged_alig_counts || return 1
             ;;
     esac
 
@@ -367,7 +370,7 @@ filter_lex_table_text()
     local scorpus="${chunks_dir}"/${src_chunk}
     local tcorpus="${chunks_dir}"/${trg_chunk}
     local lextable="${curr_tables_dir}"/merged_lex_counts
-    "${bindir}"/thot_filter_text_ilextable "$svocfile" "$tvocfile" "$scorpus" "$tcorpus" "$lextable" > "${filtered_model_dir}"/model.${lex_ext}
+    "${bindir}"/thot_filter_text_ilextable "$svocfile" "$tvocfile" "$scorpus" "$tcorpus" "$lextable" > "${filtered_model_dir}"/model.${lex_ext} || return 1
     if [ ${debug} -ne 0 ]; then
         echo " - Entries in unfiltered table: "`wc -l "${lextable}" | "$AWK" '{printf"%s",$1}'` >> "$TMP"/log
         echo " - Entries in filtered table: "`wc -l "${filtered_model_dir}"/model.${lex_ext} | "$AWK" '{printf"%s",$1}'` >> "$TMP"/log
@@ -419,7 +422,7 @@ create_filtered_model()
             extension="${bname##*.}"
             filename="${bname%.*}"
             if [ $extension != ${lex_ext} -a $extension != ${alig_ext} -a $extension != "src" -a $extension != "trg" ]; then
-                cp "$f" "${filtered_model_dir}"/model.${extension}
+                cp "$f" "${filtered_model_dir}"/model.${extension} || return 1
             fi
         fi
     done
@@ -436,7 +439,7 @@ create_filtered_model()
 
     # Copy current alignment file
     if [ ${alig_ext} != "none" ]; then 
-        cp "${curr_tables_dir}"/merged_alig_counts "${filtered_model_dir}"/model.${alig_ext}
+        cp "${curr_tables_dir}"/merged_alig_counts "${filtered_model_dir}"/model.${alig_ext} || return 1
     fi
 }
 
@@ -452,7 +455,7 @@ prune_lex_table()
 prune_lex_table_text()
 {
     "${bindir}"/thot_prune_text_ilextable -n ${npr_val} -c ${cpr_val} \
-        -t "${curr_tables_dir}"/merged_lex_counts -T "$TMP" > "${output}".${lex_ext}
+        -t "${curr_tables_dir}"/merged_lex_counts -T "$TMP" > "${output}".${lex_ext} || return 1
     if [ ${debug} -ne 0 ]; then
         echo " - Entries in original table: "`wc -l "${curr_tables_dir}"/merged_lex_counts | "$AWK" '{printf"%s",$1}'` >> "$TMP"/log
         echo " - Entries in pruned table: "`wc -l "${output}".${lex_ext} | "$AWK" '{printf"%s",$1}'` >> "$TMP"/log
@@ -478,7 +481,7 @@ generate_final_model()
                 # are equal (this happens if -l and -o parameters were
                 # the same)
                 if [ "$f" != "${output}".${extension} ]; then
-                    cp "$f" "${output}".${extension}
+                    cp "$f" "${output}".${extension} || return 1
                 fi
             fi
         fi
@@ -489,21 +492,21 @@ generate_final_model()
     done
 
     # Copy sentence length model
-    cp "${slmodel_dir}"/model "${output}".slmodel
+    cp "${slmodel_dir}"/model "${output}".slmodel || return 1
 
     # Prune lexical table
     if [ ${npr_val} -eq 0 -a ${cpr_val} = "0" ]; then
-        cp "${curr_tables_dir}"/merged_lex_counts "${output}".${lex_ext}
+        cp "${curr_tables_dir}"/merged_lex_counts "${output}".${lex_ext} || return 1
     else
         # Prune lexical table
         echo "++ [Map-Reduce] Pruning lexical table..." >> "$TMP"/log
         echo "++ [Map-Reduce] Pruning lexical table..." >&2
-        prune_lex_table || exit 1
+        prune_lex_table || return 1
     fi
     
     # Copy alignment table if exists
     if [ ${alig_ext} != "none" ]; then
-        cp "${curr_tables_dir}"/merged_alig_counts "${output}".${alig_ext}
+        cp "${curr_tables_dir}"/merged_alig_counts "${output}".${alig_ext} || return 1
     fi
 }
 
@@ -703,7 +706,7 @@ get_model_information
 split_input
 
 # Estimate sentence length model
-estimate_slmodel
+estimate_slmodel || exit 1
 
 # EM algorithm iterations
 n=1
@@ -744,7 +747,7 @@ while [ $n -le ${niters} ]; do
 done
 
 # Generate final model...
-generate_final_model
+generate_final_model || exit 1
 
 # Copy log file
 echo "++++ Process finished at: " `date` >> ""$TMP""/log
diff --git a/utils/sw_models/thot_pbs_gen_batch_sw_model.sh b/utils/sw_models/thot_pbs_gen_batch_sw_model.sh
index a0011a8..23f89ff 100644
--- a/utils/sw_models/thot_pbs_gen_batch_sw_model.sh
+++ b/utils/sw_models/thot_pbs_gen_batch_sw_model.sh
@@ -137,8 +137,8 @@ split_input()
         "${SPLIT}" -l ${chunk_size} "${trgf}" "${chunks_dir}/trg_chunk_" || return 1
     else
         local rand_seed=31415
-        "${bindir}"/thot_shuffle ${rand_seed} "${tdir}" "${srcf}" | "${SPLIT}" -l ${chunk_size} - "${chunks_dir}/src_chunk_" || return 1
-        "${bindir}"/thot_shuffle ${rand_seed} "${tdir}" "${trgf}" | "${SPLIT}" -l ${chunk_size} - "${chunks_dir}/trg_chunk_" || return 1
+        "${bindir}"/thot_shuffle ${rand_seed} "${tdir}" "${srcf}" | "${SPLIT}" -l ${chunk_size} - "${chunks_dir}/src_chunk_" ; ${PIPE_FAIL} || return 1
+        "${bindir}"/thot_shuffle ${rand_seed} "${tdir}" "${trgf}" | "${SPLIT}" -l ${chunk_size} - "${chunks_dir}/trg_chunk_" ; ${PIPE_FAIL} || return 1
     fi
 }
 
@@ -157,15 +157,15 @@ estimate_slmodel()
 estimate_init_model()
 {
     # Create void corpus
-    "$TOUCH" "${init_model_dir}"/void_corpus
+    "$TOUCH" "${init_model_dir}"/void_corpus || return 1
     
     # Generate model for void corpus
     "${bindir}"/thot_gen_sw_model -s "${init_model_dir}"/void_corpus -t "${init_model_dir}"/void_corpus \
         ${lf_opt} ${af_opt} ${np_opt} -eb -n 1 -nl -o "${init_model_dir}"/model 2> "${init_model_dir}"/log || return 1
      
     # Add complete vocabularies
-    "${bindir}"/thot_get_swm_vocab "${srcf}" "NULL UNKNOWN_WORD <UNUSED_WORD>" > "${init_model_dir}"/model.svcb
-    "${bindir}"/thot_get_swm_vocab "${trgf}" "NULL UNKNOWN_WORD <UNUSED_WORD>" > "${init_model_dir}"/model.tvcb
+    "${bindir}"/thot_get_swm_vocab "${srcf}" "NULL UNKNOWN_WORD <UNUSED_WORD>" > "${init_model_dir}"/model.svcb || return 1
+    "${bindir}"/thot_get_swm_vocab "${trgf}" "NULL UNKNOWN_WORD <UNUSED_WORD>" > "${init_model_dir}"/model.tvcb || return 1
 
     # Create msinfo file
     echo "0" > "${init_model_dir}"/model.msinfo
@@ -231,24 +231,24 @@ sort_counts()
 sort_counts_text()
 {
     "${AWK}" -v c=$chunk_id '{printf"%s %s\n",$0,c}' "${models_per_chunk_dir}/${out_chunk}/model.${lex_ext}" | \
-        sort_lex_counts_text > "${curr_tables_dir}/lex_counts_${out_chunk}"
+        sort_lex_counts_text > "${curr_tables_dir}/lex_counts_${out_chunk}" ; ${PIPE_FAIL} || return 1
     if [ ${alig_ext} != "none" ]; then 
         "${AWK}" -v c=$chunk_id '{printf"%s %s\n",$0,c}' "${models_per_chunk_dir}/${out_chunk}/model.${alig_ext}" | \
-            sort_alig_counts_text > "${curr_tables_dir}/alig_counts_${out_chunk}"
+            sort_alig_counts_text > "${curr_tables_dir}/alig_counts_${out_chunk}" ; ${PIPE_FAIL} || return 1
     fi
 }
 
 sort_counts_bin()
 {
-    "${bindir}"/thot_sort_bin_ilextable -l "${models_per_chunk_dir}/${out_chunk}/model.${lex_ext}" > "${curr_tables_dir}/lex_counts_${out_chunk}"
+    "${bindir}"/thot_sort_bin_ilextable -l "${models_per_chunk_dir}/${out_chunk}/model.${lex_ext}" > "${curr_tables_dir}/lex_counts_${out_chunk}" || return 1
 
     if [ ${alig_ext} != "none" ]; then 
         case ${alig_ext} in
             "hmm_alignd") "${bindir}/thot_sort_bin_ihmmatable" \
-                -a "${models_per_chunk_dir}/${out_chunk}/model.${alig_ext}" > "${curr_tables_dir}/alig_counts_${out_chunk}"
+                -a "${models_per_chunk_dir}/${out_chunk}/model.${alig_ext}" > "${curr_tables_dir}/alig_counts_${out_chunk}" || return 1
                 ;;
             "ibm2_alignd") "${bindir}/thot_sort_bin_iibm2atable" \
-                -a "${models_per_chunk_dir}/${out_chunk}/model.${alig_ext}" > "${curr_tables_dir}/alig_counts_${out_chunk}"
+                -a "${models_per_chunk_dir}/${out_chunk}/model.${alig_ext}" > "${curr_tables_dir}/alig_counts_${out_chunk}" || return 1
                 ;;
         esac
     fi
@@ -258,7 +258,8 @@ proc_chunk()
 {
     # Create directory if necessary
     if [ ! -d "${models_per_chunk_dir}/${out_chunk}" ]; then
-        mkdir "${models_per_chunk_dir}/${out_chunk}"
+        mkdir "${models_per_chunk_dir}/${out_chunk}" || \
+            { echo "Error while executing proc_chunk for ${chunk}" >> "$SDIR"/log ; return 1 ; }
     fi
 
     # Write date to log file
@@ -271,7 +272,8 @@ proc_chunk()
         # Copy initial model into model directory for chunk
         for f in "${init_model_dir}/model"*; do
             if [ -f "$f" ]; then
-                cp "$f" "${models_per_chunk_dir}/${out_chunk}/"
+                cp "$f" "${models_per_chunk_dir}/${out_chunk}/" || \
+                    { echo "Error while executing proc_chunk for ${chunk}" >> "$SDIR"/log ; return 1 ; }
             fi
         done
         
@@ -463,7 +465,7 @@ filter_lex_table_text()
     local scorpus="${chunks_dir}"/${src_chunk}
     local tcorpus="${chunks_dir}"/${trg_chunk}
     local lextable="${curr_tables_dir}"/merged_lex_counts
-    "${bindir}"/thot_filter_text_ilextable "$svocfile" "$tvocfile" "$scorpus" "$tcorpus" "$lextable" > "${chunk_filtered_model_dir}/model.${lex_ext}"
+    "${bindir}"/thot_filter_text_ilextable "$svocfile" "$tvocfile" "$scorpus" "$tcorpus" "$lextable" > "${chunk_filtered_model_dir}/model.${lex_ext}" || return 1
     if [ ${debug} -ne 0 ]; then
         echo "Entries in unfiltered table (${chunk}): "`wc -l "${lextable}" | "$AWK" '{printf"%s",$1}'` >> "$SDIR"/log
         echo "Entries in filtered table (${chunk}): "`wc -l "${chunk_filtered_model_dir}/model.${lex_ext}" | "$AWK" '{printf"%s",$1}'` >> "$SDIR"/log
@@ -487,7 +489,7 @@ filter_lex_table_text_alt()
             sword=$1
             tword=$2
            }
-          }' "$lextable" > "${chunk_filtered_model_dir}/model.${lex_ext}"
+          }' "$lextable" > "${chunk_filtered_model_dir}/model.${lex_ext}" || return 1
     if [ ${debug} -ne 0 ]; then
         echo "Entries in unfiltered table (${chunk}): "`wc -l "${lextable}" | "$AWK" '{printf"%s",$1}'` >> "$SDIR"/log
         echo "Entries in filtered table (${chunk}): "`wc -l "${chunk_filtered_model_dir}/model.${lex_ext}" | "$AWK" '{printf"%s",$1}'` >> "$SDIR"/log
@@ -511,7 +513,8 @@ create_filtered_model()
 
     # Create directory if necessary
     if [ ! -d "${chunk_filtered_model_dir}" ]; then
-        mkdir "${chunk_filtered_model_dir}"
+        mkdir "${chunk_filtered_model_dir}" || \
+            { echo "Error while executing create_filtered_model" >> "$SDIR"/log ; return 1 ; }
     else
         # Directory already exists, remove previous content
         rm -rf "${chunk_filtered_model_dir}/"*
@@ -932,7 +935,7 @@ declare alig_ext=""
 get_model_information
 
 # Split shuffled input into chunks and process them separately...
-split_input
+split_input || exit 1
 spl_job_id=""
 
 # Estimate sentence length model
@@ -1053,7 +1056,7 @@ while [ $n -le ${niters} ]; do
 
     # Remove sync info if sleep-based synchronization is being performed
     if [ ${sync_sleep} -eq 1 ]; then
-        rm -rf "${sync_info_dir}/"*
+        rm -rf "${sync_info_dir}/"* || exit 1
     fi
 
     # Update job_id_list
diff --git a/utils/sw_models/thot_pbs_gen_best_sw_alig.sh b/utils/sw_models/thot_pbs_gen_best_sw_alig.sh
index bb41662..c68a309 100644
--- a/utils/sw_models/thot_pbs_gen_best_sw_alig.sh
+++ b/utils/sw_models/thot_pbs_gen_best_sw_alig.sh
@@ -130,8 +130,8 @@ split_input()
         "${SPLIT}" -l ${chunk_size} "${trgf}" "${chunks_dir}/trg_chunk_" || return 1
     else
         local rand_seed=31415
-        "${bindir}"/thot_shuffle ${rand_seed} "${tdir}" "${srcf}" | "${SPLIT}" -l ${chunk_size} - "${chunks_dir}/src_chunk_" || return 1
-        "${bindir}"/thot_shuffle ${rand_seed} "${tdir}" "${trgf}" | "${SPLIT}" -l ${chunk_size} - "${chunks_dir}/trg_chunk_" || return 1
+        "${bindir}"/thot_shuffle ${rand_seed} "${tdir}" "${srcf}" | "${SPLIT}" -l ${chunk_size} - "${chunks_dir}/src_chunk_" ; ${PIPE_FAIL} || return 1
+        "${bindir}"/thot_shuffle ${rand_seed} "${tdir}" "${trgf}" | "${SPLIT}" -l ${chunk_size} - "${chunks_dir}/trg_chunk_" ; ${PIPE_FAIL} || return 1
     fi
 }
 
-- 
2.43.0


From bcfefa16f3d8b56a1a928ff8323eba8e548e45e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:08 +0000
Subject: [PATCH 50/61] fix: endless loops of scripts on cut or unreadable
 tables

---
 utils/nlp_common/thot_extract_sents_by_ln.sh   | 2 +-
 utils/phrase_models/thot_gen_fbdb_ttable.sh    | 2 +-
 utils/phrase_models/thot_gen_leveldb_ttable.sh | 2 +-
 utils/phrase_models/thot_get_nbest_for_trg.sh  | 2 +-
 utils/stack_dec/thot_conf_interv_smt.sh        | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/utils/nlp_common/thot_extract_sents_by_ln.sh b/utils/nlp_common/thot_extract_sents_by_ln.sh
index b77cf17..9e0d27f 100644
--- a/utils/nlp_common/thot_extract_sents_by_ln.sh
+++ b/utils/nlp_common/thot_extract_sents_by_ln.sh
@@ -53,7 +53,7 @@ else
     # Process parameters
     "${AWK}" -v fn="$fn" -v r=$r \
         'BEGIN{
-                while(getline < fn)
+                while((getline < fn) > 0)
                 {
                   sn[$1]=1
                 }
diff --git a/utils/phrase_models/thot_gen_fbdb_ttable.sh b/utils/phrase_models/thot_gen_fbdb_ttable.sh
index f4c6f82..8e74e79 100644
--- a/utils/phrase_models/thot_gen_fbdb_ttable.sh
+++ b/utils/phrase_models/thot_gen_fbdb_ttable.sh
@@ -115,7 +115,7 @@ extract_first_phrase()
 {
     "$AWK"  '{
               i=1; 
-              while($i!="|||") 
+              while(i<=NF && $i!="|||") 
               {
                 printf"%s ",$i;++i
               }
diff --git a/utils/phrase_models/thot_gen_leveldb_ttable.sh b/utils/phrase_models/thot_gen_leveldb_ttable.sh
index 300bf0c..97414e5 100644
--- a/utils/phrase_models/thot_gen_leveldb_ttable.sh
+++ b/utils/phrase_models/thot_gen_leveldb_ttable.sh
@@ -116,7 +116,7 @@ extract_first_phrase()
 {
     "$AWK"  '{
               i=1; 
-              while($i!="|||") 
+              while(i<=NF && $i!="|||") 
               {
                 printf"%s ",$i;++i
               }
diff --git a/utils/phrase_models/thot_get_nbest_for_trg.sh b/utils/phrase_models/thot_get_nbest_for_trg.sh
index dcd363a..85e2ad8 100644
--- a/utils/phrase_models/thot_get_nbest_for_trg.sh
+++ b/utils/phrase_models/thot_get_nbest_for_trg.sh
@@ -21,7 +21,7 @@ filter_nbest()
                               }
                              {
                               i=1
-                              while($i!="|||")
+                              while(i<=NF && $i!="|||")
                               {
                                if(i==1) strn=$i
                                else strn=strn" "$i
diff --git a/utils/stack_dec/thot_conf_interv_smt.sh b/utils/stack_dec/thot_conf_interv_smt.sh
index fd68351..fa52be7 100644
--- a/utils/stack_dec/thot_conf_interv_smt.sh
+++ b/utils/stack_dec/thot_conf_interv_smt.sh
@@ -23,7 +23,7 @@ bootstrap_exper()
         "$AWK" -v seed=$r -v ref="$ref" -v S=$S -v tmp="$TMP" '
          BEGIN{
 	       nr=0;
-               while(getline<ref) refh[++nr]=$0; 
+               while((getline<ref) > 0) refh[++nr]=$0; 
               }
               {
                testh[NR]=$0;
-- 
2.43.0


From 96cd7364bec6d6743b655be36369b9abf3e6df17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:05 +0000
Subject: [PATCH 51/61] fix: options -g, -af, -cpr, -np, -ao and -qs of
 thot_tm_train ignored

---
 utils/exper/thot_tm_train.sh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/utils/exper/thot_tm_train.sh b/utils/exper/thot_tm_train.sh
index 382cdfe..c18ce4e 100644
--- a/utils/exper/thot_tm_train.sh
+++ b/utils/exper/thot_tm_train.sh
@@ -258,7 +258,7 @@ while [ $# -ne 0 ]; do
               if [ $# -ne 0 ]; then
                   gfile=$1
                   g_given=1
-                  g_opt="-g ${gfile}"
+                  g_opt="-g"
               fi
               ;;
         "-to") shift
@@ -447,9 +447,9 @@ mkdir -p "${outd}/${outsubdir}" || { echo "Error! cannot create output directory
 prefix="${outd}/${outsubdir}/src_trg"
 relative_prefix="${outsubdir}/src_trg"
 "${bindir}"/thot_pbs_gen_batch_phr_model -pr ${pr_val} \
-    -s "$tcorpus" -t "$scorpus" -o $prefix "${g_opt}" -nit $niters "${af_opt}" "${cpr_opt}" \
-    "${np_opt}" -m ${m_val} "${ao_opt}" -to ${to_val} "${dict_opt}" "${unk_opt}" \
-    "${qs_opt}" "${qs_par}" -T "$tdir" -sdir "$sdir" ${debug_opt} || exit 1
+    -s "$tcorpus" -t "$scorpus" -o "$prefix" ${g_opt} "${gfile}" -nit $niters ${af_opt} ${cpr_opt} \
+    ${np_opt} -m ${m_val} ${ao_opt} -to ${to_val} ${dict_opt} ${unk_opt} \
+    ${qs_opt} "${qs_par}" -T "$tdir" -sdir "$sdir" ${debug_opt} || exit 1
 
 # Process -bdb option if given
 if [ ! -z "${LDB_CXX}" -a ${bdb_given} -eq 1 ]; then
-- 
2.43.0


From ad5463f0320ed19cc9e09330bcc077f50330a479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:05 +0000
Subject: [PATCH 52/61] fix: file for word prediction of the language model
 descriptor always empty

---
 utils/exper/thot_lm_train.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/exper/thot_lm_train.sh b/utils/exper/thot_lm_train.sh
index 2fe49e1..c3abbea 100644
--- a/utils/exper/thot_lm_train.sh
+++ b/utils/exper/thot_lm_train.sh
@@ -118,7 +118,7 @@ generate_global_word_predictor_file()
     # Gather current word predictor files
     nlines_wp_file=100000
     tmpfile1=`"${MKTEMP}"`
-    for file in "${outd}/main/*.wp" "${outd}/additional*/*.wp" ; do
+    for file in "${outd}"/main/*.wp "${outd}"/additional*/*.wp ; do
         if [ -f "$file" ]; then
             cat "$file" >> "$tmpfile1" || return 1
         fi
-- 
2.43.0


From a65920a86b12c344e362ca91cdbe71d49d76f6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:05 +0000
Subject: [PATCH 53/61] fix: empty lines become numbers in thot_shuffle

---
 utils/nlp_common/thot_shuffle.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/nlp_common/thot_shuffle.sh b/utils/nlp_common/thot_shuffle.sh
index f2182f3..6277e0a 100644
--- a/utils/nlp_common/thot_shuffle.sh
+++ b/utils/nlp_common/thot_shuffle.sh
@@ -15,7 +15,7 @@ shuffle()
 
     # Shuffle file
     "$AWK" -v seed=${_seed} 'BEGIN{srand(seed)}{printf"%f %d %s\n",rand(),NR,$0}' ${_file} \
-        | LC_ALL=C "$SORT" -k1n -k2n -T "${_tdir}" | "$AWK" '{for(i=3;i<NF;++i) printf"%s ",$i; printf"%s\n",$NF}' ; ${PIPE_FAIL} || return 1
+        | LC_ALL=C "$SORT" -k1n -k2n -T "${_tdir}" | "$AWK" '{for(i=3;i<NF;++i) printf"%s ",$i; if(NF>2) printf"%s\n",$NF; else printf"\n"}' ; ${PIPE_FAIL} || return 1
 }
 
 thot_shuffle_alt()
-- 
2.43.0


From bbcde80bc119e0be2fc05d8cca56444bfdf69fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:05 +0000
Subject: [PATCH 54/61] fix: failed steps of thot_prepare_sys_for_test
 unnoticed, single language models not found

---
 utils/exper/thot_prepare_sys_for_test.sh | 59 ++++++++++++++----------
 1 file changed, 35 insertions(+), 24 deletions(-)

diff --git a/utils/exper/thot_prepare_sys_for_test.sh b/utils/exper/thot_prepare_sys_for_test.sh
index aa9f3f8..194c3eb 100644
--- a/utils/exper/thot_prepare_sys_for_test.sh
+++ b/utils/exper/thot_prepare_sys_for_test.sh
@@ -99,7 +99,8 @@ check_if_file_is_desc()
         echo 0
     else
         # File exists
-        nl=`"$HEAD" -1 "$file" | "$GREP" -e "thot lm descriptor" -e "thot tm descriptor" | "$WC" -l`
+        _first_line=`"$HEAD" -1 "$file"` || return 1
+        nl=`echo "${_first_line}" | "$GREP" -e "thot lm descriptor" -e "thot tm descriptor" | "$WC" -l`
         if [ $nl -eq 0 ]; then
             echo 0
         else
@@ -144,14 +145,14 @@ process_files_for_individual_lm()
     # Add entry to descriptor file
     _baselmfile=`basename "${_lmfile}"`
     _relative_newlmfile=${_lm_status}/${_baselmfile}    
-    echo "${_lmtype} ${_relative_newlmfile} ${_lm_status}" >> "${outd}/lm/lm_desc"
+    echo "${_lmtype} ${_relative_newlmfile} ${_lm_status}" >> "${outd}/lm/lm_desc" || { echo "Error while preparing language model files" >&2 ; return 1; }
 }
 
 ########
 list_lm_entry_info()
 {
     lmdesc=$1
-    "$TAIL" -n +2 ${lmdesc} | "$AWK" '{printf"%s,%s,%s\n",$1,$2,$3}'
+    "$TAIL" -n +2 ${lmdesc} | "$AWK" '{printf"%s,%s,%s\n",$1,$2,$3}' ; ${PIPE_FAIL} || return 1
 }
 
 ########
@@ -159,6 +160,13 @@ create_lm_files()
 {
     # Obtain path of lm file
     lmfile="`get_lm_from_cfgfile "$cmdline_cfg"`"
+
+    # Check that lm file could be obtained
+    if [ -z "$lmfile" ]; then
+        echo "Error! configuration file seems to be wrong" >&2
+        return 1
+    fi
+
     baselmfile=`basename "$lmfile"`
 
     # Create directory for lm files
@@ -168,16 +176,17 @@ create_lm_files()
         mkdir -p "${outd}/lm" || { echo "Error! cannot create directory for language model" >&2; return 1; }
     fi
 
-    # Check if tm file is a descriptor
-    is_desc=`check_if_file_is_desc "${lmfile}"`
+    # Check if lm file is a descriptor
+    is_desc=`check_if_file_is_desc "${lmfile}"` || return 1
 
     if [ ${is_desc} -eq 1 ]; then
         # Create descriptor
-        echo "thot lm descriptor" > "${outd}/lm/lm_desc"
+        echo "thot lm descriptor" > "${outd}/lm/lm_desc" || return 1
 
         # Create files for the different language models
         lmdesc_dirname=`$DIRNAME $lmfile`
-        for lm_entry in `list_lm_entry_info $lmfile`; do
+        lm_entries=`list_lm_entry_info $lmfile` || return 1
+        for lm_entry in ${lm_entries}; do
             curr_lmtype=`echo "${lm_entry}" | "$AWK" -F "," '{printf"%s",$1}'`
             curr_lmfile=`echo "${lm_entry}" | "$AWK" -F "," '{printf"%s",$2}'`
             curr_status=`echo "${lm_entry}" | "$AWK" -F "," '{printf"%s",$3}'`
@@ -185,20 +194,20 @@ create_lm_files()
         done
 
         # Copy weights for lm descriptor
-        cp "${lmfile}.weights" "${outd}/lm/"
+        cp "${lmfile}.weights" "${outd}/lm/" || { echo "Error while preparing language model files" >&2 ; return 1; }
 
         # Copy wp file for lm descriptor
-        cp "${lmfile}.wp" "${outd}/lm/"
+        cp "${lmfile}.wp" "${outd}/lm/" || { echo "Error while preparing language model files" >&2 ; return 1; }
 
         # Obtain new file name for lm descriptor
         baselmfile=`basename "$lmfile"`
         newlmfile="${outd}/lm/${baselmfile}"
     else
         # Create descriptor
-        echo "thot lm descriptor" > "${outd}/lm/lm_desc"
+        echo "thot lm descriptor" > "${outd}/lm/lm_desc" || return 1
 
         # Create files for individual language model
-        process_files_for_individual_lm "\$(${LIBDIR_VARNAME})/incr_jel_mer_ngram_lm_factory.so ${lmfile}" "main" || return 1;
+        process_files_for_individual_lm "\$(${LIBDIR_VARNAME})/incr_jel_mer_ngram_lm_factory.so" "${lmfile}" "main" || return 1;
 
         # Obtain new lm file name
         baselmfile=`basename "$lmfile"`
@@ -210,7 +219,7 @@ create_lm_files()
 list_tm_entry_info()
 {
     tmdesc=$1
-    "$TAIL" -n +2 ${tmdesc} | "$AWK" '{printf"%s,%s,%s\n",$1,$2,$3}'
+    "$TAIL" -n +2 ${tmdesc} | "$AWK" '{printf"%s,%s,%s\n",$1,$2,$3}' ; ${PIPE_FAIL} || return 1
 }
 
 ########
@@ -251,7 +260,7 @@ process_files_for_individual_tm()
     # Add entry to descriptor file
     _basetmfile=`basename "${_tmfile}"`
     _relative_newtmfile="${_tm_status}/${_basetmfile}"    
-    echo "${_tmtype} ${_relative_newtmfile} ${_tm_status}" >> "${outd}/tm/tm_desc"    
+    echo "${_tmtype} ${_relative_newtmfile} ${_tm_status}" >> "${outd}/tm/tm_desc" || { echo "Error while preparing translation model files" >&2 ; return 1; }
 }
 
 ########
@@ -276,15 +285,16 @@ create_tm_files()
     fi
 
     # Check if tm file is a descriptor
-    is_desc=`check_if_file_is_desc "${tmfile}"`
+    is_desc=`check_if_file_is_desc "${tmfile}"` || return 1
 
     if [ ${is_desc} -eq 1 ]; then
         # Create descriptor
-        echo "thot tm descriptor" > "${outd}/tm/tm_desc"
+        echo "thot tm descriptor" > "${outd}/tm/tm_desc" || return 1
 
         # Create files for the different translation models
         tmdesc_dirname=`$DIRNAME "$tmfile"`
-        for tm_entry in `list_tm_entry_info $tmfile`; do
+        tm_entries=`list_tm_entry_info $tmfile` || return 1
+        for tm_entry in ${tm_entries}; do
             curr_tmtype=`echo "${tm_entry}" | "$AWK" -F "," '{printf"%s",$1}'`
             curr_tmfile=`echo "${tm_entry}" | "$AWK" -F "," '{printf"%s",$2}'`
             curr_status=`echo "${tm_entry}" | "$AWK" -F "," '{printf"%s",$3}'`
@@ -296,7 +306,7 @@ create_tm_files()
         newtmfile="${outd}/tm/${basetmfile}"
     else
         # Create descriptor
-        echo "thot tm descriptor" > "${outd}/tm/tm_desc"
+        echo "thot tm descriptor" > "${outd}/tm/tm_desc" || return 1
 
         # Create files for individual translation model
         process_files_for_individual_tm "" "${tmfile}" "main" || return 1;
@@ -321,19 +331,20 @@ filter_ttable()
     _basetmfile=`basename "${_tmfile}"`
     _outd=$2
     "${bindir}"/thot_pbs_filter_ttable -t "${_tmfile}.ttable" \
-             -c "${tcorpus_wo_metadata}" -n 20 -T "$tdir" ${qs_opt} "${qs_par}" -o "${_outd}/${_basetmfile}.ttable" ${debug_opt}
+             -c "${tcorpus_wo_metadata}" -n 20 -T "$tdir" -sdir "$sdir" ${qs_opt} "${qs_par}" -o "${_outd}/${_basetmfile}.ttable" ${debug_opt}
 }
 
 ########
 filter_ttables()
 {
     # Check if tm file is a descriptor
-    is_desc=`check_if_file_is_desc ${tmfile}`
+    is_desc=`check_if_file_is_desc ${tmfile}` || return 1
 
     if [ ${is_desc} -eq 1 ]; then
         # Filter tables for the different translation models
         tmdesc_dirname=`$DIRNAME ${tmfile}`
-        for tm_entry in `list_tm_entry_info ${tmfile}`; do
+        tm_entries=`list_tm_entry_info ${tmfile}` || return 1
+        for tm_entry in ${tm_entries}; do
             curr_tmtype=`echo "${tm_entry}" | "$AWK" -F "," '{printf"%s",$1}'`
             curr_tmfile=`echo "${tm_entry}" | "$AWK" -F "," '{printf"%s",$2}'`
             curr_status=`echo "${tm_entry}" | "$AWK" -F "," '{printf"%s",$3}'`
@@ -355,7 +366,7 @@ generate_cfg_file()
     echo "# [SCRIPT_INFO]"
 
     # Create file from command line file
-    cat "$cmdline_cfg" | "$AWK" -v nlm="$newlmfile" -v ntm="$newtmfile" \
+    "$AWK" -v nlm="$newlmfile" -v ntm="$newtmfile" \
                          '{
                            if(!($1=="#" && $2=="[SCRIPT_INFO]"))
                            {
@@ -363,7 +374,7 @@ generate_cfg_file()
                             if($1=="-tm") $2=ntm
                             printf"%s\n",$0
                            }
-                          }'
+                          }' "$cmdline_cfg"
 }
 
 ########
@@ -471,7 +482,7 @@ else
         # echo "Error! output directory should not exist" >&2 
         # exit 1
     else
-        mkdir -p "${outd}/" || { echo "Error! cannot create output directory" >&2; return 1; }
+        mkdir -p "${outd}/" || { echo "Error! cannot create output directory" >&2; exit 1; }
     fi
     # Obtain absolute path
     outd=`get_absolute_path "$outd"`
@@ -504,4 +515,4 @@ get_srcsents_from_test 2>/dev/null || exit 1
 filter_ttables || exit 1
 
 # Generate cfg file
-generate_cfg_file > "${outd}/test_specific.cfg"
+generate_cfg_file > "${outd}/test_specific.cfg" || exit 1
-- 
2.43.0


From aa249ac66c8dd27f4a02b5065194cb8f109a6ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:05 +0000
Subject: [PATCH 55/61] fix: failed steps of the training commands unnoticed

---
 utils/exper/thot_gen_cfg_file.sh              |  2 +-
 utils/exper/thot_lm_train.sh                  | 27 ++++++-----
 utils/exper/thot_tm_train.sh                  | 12 ++---
 .../thot_pbs_gen_batch_phr_model.sh           | 46 +++++++++----------
 4 files changed, 45 insertions(+), 42 deletions(-)

diff --git a/utils/exper/thot_gen_cfg_file.sh b/utils/exper/thot_gen_cfg_file.sh
index bf6929e..6fb4ce8 100644
--- a/utils/exper/thot_gen_cfg_file.sh
+++ b/utils/exper/thot_gen_cfg_file.sh
@@ -126,5 +126,5 @@ else
     cat "${datadir}/cfg_templates/thot_basic.cfg" | \
         put_lm_desc_string | \
         put_tm_desc_string | \
-        put_cf_desc_string
+        put_cf_desc_string ; ${PIPE_FAIL} || exit 1
 fi
diff --git a/utils/exper/thot_lm_train.sh b/utils/exper/thot_lm_train.sh
index c3abbea..52a7693 100644
--- a/utils/exper/thot_lm_train.sh
+++ b/utils/exper/thot_lm_train.sh
@@ -5,6 +5,9 @@
 
 # \textbf{Categ}: modelling
 
+# INCLUDE BASH LIBRARIES
+. "${bindir}"/thot_general_lib || exit 1
+
 ########
 print_desc()
 {
@@ -112,12 +115,12 @@ generate_global_word_predictor_file()
 {
     # Remove previous word predictor file
     if [ -f "${outd}/lm_desc.wp" ]; then
-        rm "${outd}/lm_desc.wp"
+        rm "${outd}/lm_desc.wp" || return 1
     fi
 
     # Gather current word predictor files
     nlines_wp_file=100000
-    tmpfile1=`"${MKTEMP}"`
+    tmpfile1=`"${MKTEMP}"` || return 1
     for file in "${outd}"/main/*.wp "${outd}"/additional*/*.wp ; do
         if [ -f "$file" ]; then
             cat "$file" >> "$tmpfile1" || return 1
@@ -125,7 +128,7 @@ generate_global_word_predictor_file()
     done
 
     # Generate global word predictor file
-    tmpfile2=`"${MKTEMP}"`
+    tmpfile2=`"${MKTEMP}"` || return 1
     "${bindir}"/thot_shuffle 31415 "$tdir" "$tmpfile1" > "$tmpfile2" || return 1
     "$HEAD" -${nlines_wp_file} "$tmpfile2" > "${outd}/lm_desc.wp" || return 1
     rm "$tmpfile1" "$tmpfile2"
@@ -148,17 +151,17 @@ create_desc_files()
     # Create descriptor file and file with weights
     if [ ${o_given} -eq 1 ]; then
         # -o option was given
-        echo "thot lm descriptor # tool: thot_lm_train" > "${outd}/lm_desc"
-        echo "${modeltype} ${relative_prefix} main # corpus file: ${corpus}" >> "${outd}/lm_desc"
+        echo "thot lm descriptor # tool: thot_lm_train" > "${outd}/lm_desc" || return 1
+        echo "${modeltype} ${relative_prefix} main # corpus file: ${corpus}" >> "${outd}/lm_desc" || return 1
 
         # add new weight to descriptor weights file
-        echo "1" > "${outd}/lm_desc.weights"
+        echo "1" > "${outd}/lm_desc.weights" || return 1
     else
         # -a option was given
-        echo "${modeltype} ${relative_prefix} ${outsubdir} # corpus file: ${corpus}" >> "${outd}/lm_desc"        
+        echo "${modeltype} ${relative_prefix} ${outsubdir} # corpus file: ${corpus}" >> "${outd}/lm_desc" || return 1
 
         # add new weight to descriptor weights file
-        echo "1" >> "${outd}/lm_desc.weights"
+        echo "1" >> "${outd}/lm_desc.weights" || return 1
     fi
 
     # Create global word predictor file
@@ -198,7 +201,7 @@ estimate_thotlm()
     relative_prefix="${outsubdir}/trg.lm"
 
     # Obtain number of lines for input file
-    nl=`"$WC" -l $corpus | "$AWK" '{printf"%s",$1}'`
+    nl=`"$WC" -l < "$corpus"` || return 1
 
     # Estimate n-gram model parameters
     if [ $nl -gt 0 ]; then
@@ -239,7 +242,7 @@ estimate_ldb()
     thotlm_prefix="$outd/${outsubdir}/trg.thotlm"
 
     # Obtain number of lines for input file
-    nl=`"$WC" -l $corpus | "$AWK" '{printf"%s",$1}'`
+    nl=`"$WC" -l < "$corpus"` || return 1
 
     # Estimate n-gram model parameters
     if [ $nl -gt 0 ]; then
@@ -296,8 +299,8 @@ generate_word_prediction_file()
 {
     head_nlines=1000000
     nlines_wp_file=100000
-    tmpfile=`"${MKTEMP}"`
-    "$HEAD" -${head_nlines} "$corpus" | "${bindir}"/thot_shuffle 31415 "$tdir" > "$tmpfile" || return 1
+    tmpfile=`"${MKTEMP}"` || return 1
+    "$HEAD" -${head_nlines} "$corpus" | "${bindir}"/thot_shuffle 31415 "$tdir" > "$tmpfile" ; ${PIPE_FAIL} || return 1
     "$HEAD" -${nlines_wp_file} "$tmpfile" > "$prefix.wp" || return 1
     rm "$tmpfile"
 }
diff --git a/utils/exper/thot_tm_train.sh b/utils/exper/thot_tm_train.sh
index c18ce4e..5fb35eb 100644
--- a/utils/exper/thot_tm_train.sh
+++ b/utils/exper/thot_tm_train.sh
@@ -146,11 +146,11 @@ create_desc_file()
     # Create descriptor file
     if [ ${o_given} -eq 1 ]; then
         # -o option was given
-        echo "thot tm descriptor # tool: thot_tm_train" > "${outd}/tm_desc"
-        echo "${modeltype} ${relative_prefix} main # source file: ${scorpus} ; target file: ${tcorpus}" >> "${outd}/tm_desc"
+        echo "thot tm descriptor # tool: thot_tm_train" > "${outd}/tm_desc" || return 1
+        echo "${modeltype} ${relative_prefix} main # source file: ${scorpus} ; target file: ${tcorpus}" >> "${outd}/tm_desc" || return 1
     else
         # -a option was given
-        echo "${modeltype} ${relative_prefix} ${outsubdir} # source file: ${scorpus} ; target file: ${tcorpus}" >> "${outd}/tm_desc"
+        echo "${modeltype} ${relative_prefix} ${outsubdir} # source file: ${scorpus} ; target file: ${tcorpus}" >> "${outd}/tm_desc" || return 1
     fi
 }
 
@@ -375,8 +375,8 @@ fi
 
 
 # Check that source and target files are parallel
-nl_source=`wc -l "$scorpus" | "$AWK" '{printf"%d",$1}'`
-nl_target=`wc -l "$tcorpus" | "$AWK" '{printf"%d",$1}'`
+nl_source=`"$WC" -l < "$scorpus"` || exit 1
+nl_target=`"$WC" -l < "$tcorpus"` || exit 1
 
 if [ "${nl_source}" -ne "${nl_target}" ]; then
     echo "Error! source and target files have not the same number of lines" >&2 
@@ -467,5 +467,5 @@ fi
 
 # Create descriptor file
 echo "* Generating descriptor file... " >&2
-create_desc_file "$outd"
+create_desc_file "$outd" || exit 1
 echo "" >&2
diff --git a/utils/phrase_models/thot_pbs_gen_batch_phr_model.sh b/utils/phrase_models/thot_pbs_gen_batch_phr_model.sh
index 59cfdf8..2250130 100644
--- a/utils/phrase_models/thot_pbs_gen_batch_phr_model.sh
+++ b/utils/phrase_models/thot_pbs_gen_batch_phr_model.sh
@@ -8,17 +8,17 @@
 ########
 treat_unk_opt()
 {
-    scorpus_tmp=`"${MKTEMP}" "${sdir}"/src.XXXXXX`
-    cp ${scorpus} ${scorpus_tmp}
-    echo "UNKNOWN_WORD" >> ${scorpus_tmp}
+    trap 'rm -rf "${scorpus_tmp}" "${tcorpus_tmp}" 2>/dev/null' EXIT
+
+    scorpus_tmp=`"${MKTEMP}" "${sdir}"/src.XXXXXX` || exit 1
+    cp "${scorpus}" "${scorpus_tmp}" || exit 1
+    echo "UNKNOWN_WORD" >> "${scorpus_tmp}" || exit 1
     scorpus=${scorpus_tmp}
 
-    tcorpus_tmp=`"${MKTEMP}" "${sdir}"/trg.XXXXXX`
-    cp "${tcorpus}" "${tcorpus_tmp}"
-    echo "UNKNOWN_WORD" >> "${tcorpus_tmp}"
+    tcorpus_tmp=`"${MKTEMP}" "${sdir}"/trg.XXXXXX` || exit 1
+    cp "${tcorpus}" "${tcorpus_tmp}" || exit 1
+    echo "UNKNOWN_WORD" >> "${tcorpus_tmp}" || exit 1
     tcorpus=${tcorpus_tmp}
-
-    trap 'rm -rf "${scorpus_tmp}" "${tcorpus_tmp}" 2>/dev/null' EXIT
 }
 
 ########
@@ -30,14 +30,14 @@ empty_train()
     echo "* Generating source-to-target single word alignment model... " >&2
     "${bindir}"/thot_gen_sw_model -s "$scorpus" -t "$tcorpus" -n 1 ${lf_opt} ${af_opt} ${np_opt} \
         -o "${outp}"_swm 2>/dev/null || exit 1
-    echo "0" > "${outp}"_swm.msinfo
+    echo "0" > "${outp}"_swm.msinfo || exit 1
     echo "" >&2
 
     # Generate inverse single word model
     echo "* Generating target-to-source single word alignment model... " >&2
     "${bindir}"/thot_gen_sw_model -s "$tcorpus" -t "$scorpus" -n ${niters} ${lf_opt} ${af_opt} ${np_opt} \
         -o "${outp}"_invswm 2>/dev/null || exit 1
-    echo "0" > "${outp}"_invswm.msinfo
+    echo "0" > "${outp}"_invswm.msinfo || exit 1
     echo "" >&2
 
     # Generate phrase model
@@ -48,10 +48,10 @@ empty_train()
 
     # Generate additional phrase model parameter files
     echo "* Generating additional phrase model parameter files... " >&2
-    echo "${lambda_default_val} ${lambda_default_val}" > "${outp}".lambda
-    echo ${sslen_default_val} > "${outp}".srcsegmlentable
-    echo ${stopj_default_val} > "${outp}".trgcutstable
-    echo ${tslen_default_val} > "${outp}".trgsegmlentable
+    echo "${lambda_default_val} ${lambda_default_val}" > "${outp}".lambda || exit 1
+    echo ${sslen_default_val} > "${outp}".srcsegmlentable || exit 1
+    echo ${stopj_default_val} > "${outp}".trgcutstable || exit 1
+    echo ${tslen_default_val} > "${outp}".trgsegmlentable || exit 1
     echo "" >&2
 }
 
@@ -61,14 +61,14 @@ gen_final_alig_file()
     if [ ${g_given} -eq 1 ]; then
         # Set external alignment file
         echo "* Setting external word alignment file in GIZA format... " >&2
-        cp "${gfile}" "${outp}".A3.final
+        cp "${gfile}" "${outp}".A3.final || exit 1
         echo "" >&2
     else
         if [ ${dict_given} -eq 1 ]; then
             # Generate exhaustive alignments so as to introduce sentence
             # pairs as phrase table entries
             echo "* Generating exhaustive word alignments... " >&2
-            "$bindir"/thot_gen_exhaustive_giza_alig -s "$scorpus" -t "$tcorpus" > "${outp}".A3.final
+            "$bindir"/thot_gen_exhaustive_giza_alig -s "$scorpus" -t "$tcorpus" > "${outp}".A3.final || exit 1
             echo "" >&2
         else
             # Operate word alignments generated with the sw_models package
@@ -123,17 +123,17 @@ standard_train()
     # Constrain number of translation options
     echo "* Constraining number of translation options... " >&2
     "$bindir"/thot_pbs_get_nbest_for_trg -t "${outp}".ttable -n ${to_val} \
-        -p -T "$tdir" -o "${outp}"_restrict_trans_opt.ttable || exit 1
+        -p ${qs_opt} "${qs_par}" -sdir "$sdir" -T "$tdir" -o "${outp}"_restrict_trans_opt.ttable || exit 1
     rm "${outp}.ttable" || exit 1
     mv "${outp}_restrict_trans_opt.ttable" "${outp}.ttable" || exit 1
     echo "" >&2
 
     # Generate additional phrase model parameter files
     echo "* Generating additional phrase model parameter files... " >&2
-    echo "${lambda_default_val} ${lambda_default_val}" > "${outp}".lambda
-    echo ${sslen_default_val} > "${outp}".srcsegmlentable
-    echo ${stopj_default_val} > "${outp}".trgcutstable
-    echo ${tslen_default_val} > "${outp}".trgsegmlentable
+    echo "${lambda_default_val} ${lambda_default_val}" > "${outp}".lambda || exit 1
+    echo ${sslen_default_val} > "${outp}".srcsegmlentable || exit 1
+    echo ${stopj_default_val} > "${outp}".trgcutstable || exit 1
+    echo ${tslen_default_val} > "${outp}".trgsegmlentable || exit 1
     echo "" >&2
 }
 
@@ -407,8 +407,8 @@ else
     fi
 
     # Obtain number of lines for corpus files
-    srcnl=`"$WC" -l "$scorpus" | "$AWK" '{printf"%s",$1}'`
-    trgnl=`"$WC" -l "$tcorpus" | "$AWK" '{printf"%s",$1}'`
+    srcnl=`"$WC" -l < "$scorpus"` || exit 1
+    trgnl=`"$WC" -l < "$tcorpus"` || exit 1
 
     # Train models
     if [ $srcnl -eq 0 -a $trgnl -eq 0 ]; then
-- 
2.43.0


From a982211892fe9769861425f7f4c5e3ee15857286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:57 +0000
Subject: [PATCH 56/61] fix: every operation of the Berkeley DB phrase table
 aborted

---
 src/phrase_models/BdbPhraseTable.cc | 44 ++++++++++-------------------
 src/phrase_models/BdbPhraseTable.h  |  4 ---
 2 files changed, 15 insertions(+), 33 deletions(-)

diff --git a/src/phrase_models/BdbPhraseTable.cc b/src/phrase_models/BdbPhraseTable.cc
index b7266f3..502a592 100644
--- a/src/phrase_models/BdbPhraseTable.cc
+++ b/src/phrase_models/BdbPhraseTable.cc
@@ -141,30 +141,17 @@ void BdbPhraseTable::encodeKeyDataForPhrDictDb(PhrDictKey& phrDictKey,
                                                PhrDictValue& phrDictValue,
                                                Dbt& key,
                                                Dbt& data)
-{  
-  key.set_data(&phrDictKey);
+{
+      // NOTE: the database is opened with the DB_THREAD flag, so the
+      // memory for the returned values has to be given by the user
+  key.set_data(phrDictKey.words);
   key.set_size(phrDictKey.getSize());
+  key.set_ulen(sizeof(phrDictKey.words));
+  key.set_flags(DB_DBT_USERMEM);
   data.set_data(&phrDictValue);
   data.set_size(sizeof(PhrDictValue));
-}
-
-//-------------------------
-void BdbPhraseTable::decodeKeyDataForPhrDictDb(PhrDictKey& phrDictKey,
-                                               PhrDictValue& phrDictValue,
-                                               Dbt& key,
-                                               Dbt& data)
-{
-      // Decode key
-  PhrDictKey* keyPtr=(PhrDictKey*) key.get_data();
-  u_int32_t keySize=key.get_size();
-  unsigned int numWords=keySize/sizeof(WordIndex);
-  phrDictKey.clear();
-  for(unsigned int i=0;i<numWords;++i)
-    phrDictKey.words[i]=keyPtr->words[i];
-
-      // Decode data
-  PhrDictValue* valPtr=(PhrDictValue*) data.get_data();
-  phrDictValue.count=valPtr->count;
+  data.set_ulen(sizeof(PhrDictValue));
+  data.set_flags(DB_DBT_USERMEM);
 }
 
 //-------------------------
@@ -186,10 +173,7 @@ int BdbPhraseTable::retrieveDataForPhrDict(const std::vector<WordIndex>& s,
   if(ret)
     return THOT_ERROR;
   else
-  {
-    decodeKeyDataForPhrDictDb(phrDictKey,phrDictValue,key,data);
     return THOT_OK;
-  }
 }
 
 //-------------------------
@@ -332,24 +316,24 @@ bool BdbPhraseTable::getEntriesForTarget(const std::vector<WordIndex>& t,
   PhrDictKey phrDictKey;
   std::vector<WordIndex> emptyPhrase;
   phrDictKey.setPhrPair(emptyPhrase,t);
-  Dbt key(&phrDictKey,phrDictKey.getSize());
+  PhrDictValue phrDictValue;
+  Dbt key;
   Dbt data;
+  encodeKeyDataForPhrDictDb(phrDictKey,phrDictValue,key,data);
   int ret=cursorPtr->get(&key, &data, DB_SET_RANGE);
   if(ret)
   {
+    cursorPtr->close();
     srctn.clear();
     return false;
   }
 
       // Store count for t
-  PhrDictValue* phrDictValuePtr=(PhrDictValue*) data.get_data();
-  Count trgPhrCount=phrDictValuePtr->count;
+  Count trgPhrCount=phrDictValue.count;
   
       // Use the cursor to iterate over translations for t
   do
   {
-    PhrDictValue phrDictValue;
-    decodeKeyDataForPhrDictDb(phrDictKey,phrDictValue,key,data);
     std::vector<WordIndex> curr_t;
     std::vector<WordIndex> curr_s;
     phrDictKey.getPhrPair(curr_s,curr_t);
@@ -367,6 +351,8 @@ bool BdbPhraseTable::getEntriesForTarget(const std::vector<WordIndex>& t,
     }
     else
       break;
+        // Reset key data
+    phrDictKey.clear();
   } while(cursorPtr->get(&key, &data, DB_NEXT)==0);
 
       // Close cursor
diff --git a/src/phrase_models/BdbPhraseTable.h b/src/phrase_models/BdbPhraseTable.h
index 5b45098..39faa65 100644
--- a/src/phrase_models/BdbPhraseTable.h
+++ b/src/phrase_models/BdbPhraseTable.h
@@ -196,10 +196,6 @@ class BdbPhraseTable
                                   PhrDictValue& phrDictValue,
                                   Dbt& key,
                                   Dbt& data);
-    void decodeKeyDataForPhrDictDb(PhrDictKey& phrDictKey,
-                                  PhrDictValue& phrDictValue,
-                                  Dbt& key,
-                                  Dbt& data);
     int retrieveDataForPhrDict(const std::vector<WordIndex>& s,
                                const std::vector<WordIndex>& t,
                               PhrDictValue& phrDictValue);
-- 
2.43.0


From e4d95b22bce76dbcfdd1fb2108dc43240cec623e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:54 +0000
Subject: [PATCH 57/61] fix: failed steps of thot_smt_tune unnoticed, -sdir not
 used for filtering, single language models not found

---
 utils/exper/thot_smt_tune.sh | 74 +++++++++++++++++++-----------------
 1 file changed, 39 insertions(+), 35 deletions(-)

diff --git a/utils/exper/thot_smt_tune.sh b/utils/exper/thot_smt_tune.sh
index 715c631..346aac1 100644
--- a/utils/exper/thot_smt_tune.sh
+++ b/utils/exper/thot_smt_tune.sh
@@ -107,7 +107,8 @@ check_if_file_is_desc()
         echo 0
     else
         # File exists
-        nl=`"$HEAD" -1 $file | "$GREP" -e "thot lm descriptor" -e "thot tm descriptor" | $WC -l`
+        _first_line=`"$HEAD" -1 "$file"` || return 1
+        nl=`echo "${_first_line}" | "$GREP" -e "thot lm descriptor" -e "thot tm descriptor" | $WC -l`
         if [ $nl -eq 0 ]; then
             echo 0
         else
@@ -128,7 +129,6 @@ process_files_for_individual_lm()
     if [ ! -d "${outd}/lm/${_lm_status}" ]; then
         mkdir "${outd}/lm/${_lm_status}" || { echo "Error! cannot create directory for language model" >&2; return 1; }
     fi
-echo ${_lmfile}
     # Check availability of lm files
     nlines=`ls "${_lmfile}"* 2>/dev/null | "$WC" -l`
     if [ $nlines -eq 0 ]; then
@@ -157,14 +157,14 @@ echo ${_lmfile}
     # Add entry to descriptor file
     _baselmfile=`basename "${_lmfile}"`
     _relative_newlmfile="${_lm_status}/${_baselmfile}"    
-    echo "${_lmtype} ${_relative_newlmfile} ${_lm_status}" >> "${outd}/lm/lm_desc"
+    echo "${_lmtype} ${_relative_newlmfile} ${_lm_status}" >> "${outd}/lm/lm_desc" || { echo "Error while preparing language model files" >&2 ; return 1; }
 }
 
 ########
 list_lm_entry_info()
 {
     lmdesc=$1
-    "$TAIL" -n +2 ${lmdesc} | "$AWK" '{printf"%s,%s,%s\n",$1,$2,$3}'
+    "$TAIL" -n +2 ${lmdesc} | "$AWK" '{printf"%s,%s,%s\n",$1,$2,$3}' ; ${PIPE_FAIL} || return 1
 }
 
 ########
@@ -187,15 +187,16 @@ create_lm_files()
     fi
 
     # Check if lm file is a descriptor
-    is_desc=`check_if_file_is_desc "${lmfile}"`
+    is_desc=`check_if_file_is_desc "${lmfile}"` || return 1
 
     if [ ${is_desc} -eq 1 ]; then
         # Create descriptor
-        echo "thot lm descriptor" > "${outd}/lm/lm_desc"
+        echo "thot lm descriptor" > "${outd}/lm/lm_desc" || return 1
 
         # Create files for the different language models
         lmdesc_dirname=`$DIRNAME $lmfile`
-        for lm_entry in `list_lm_entry_info "$lmfile"`; do
+        lm_entries=`list_lm_entry_info "$lmfile"` || return 1
+        for lm_entry in ${lm_entries}; do
             curr_lmtype=`echo "${lm_entry}" | "$AWK" -F "," '{printf"%s",$1}'`
             curr_lmfile=`echo "${lm_entry}" | "$AWK" -F "," '{printf"%s",$2}'`
             curr_status=`echo "${lm_entry}" | "$AWK" -F "," '{printf"%s",$3}'`
@@ -203,20 +204,20 @@ create_lm_files()
         done
 
         # Copy weights for lm descriptor
-        cp "${lmfile}.weights" "${outd}/lm/"
+        cp "${lmfile}.weights" "${outd}/lm/" || { echo "Error while preparing language model files" >&2 ; return 1; }
 
         # Copy wp file for lm descriptor
-        cp "${lmfile}.wp" "${outd}/lm/"
+        cp "${lmfile}.wp" "${outd}/lm/" || { echo "Error while preparing language model files" >&2 ; return 1; }
 
         # Obtain new file name for lm descriptor
         baselmfile=`basename "$lmfile"`
         newlmfile="${outd}/lm/${baselmfile}"
     else
         # Create descriptor
-        echo "thot lm descriptor" > "${outd}/lm/lm_desc"
+        echo "thot lm descriptor" > "${outd}/lm/lm_desc" || return 1
 
         # Create files for individual language model
-        process_files_for_individual_lm "\$(${LIBDIR_VARNAME})/incr_jel_mer_ngram_lm_factory.so ${lmfile}" "main" || return 1
+        process_files_for_individual_lm "\$(${LIBDIR_VARNAME})/incr_jel_mer_ngram_lm_factory.so" "${lmfile}" "main" || return 1
 
         # Obtain new lm file name
         baselmfile=`basename "$lmfile"`
@@ -318,21 +319,21 @@ process_files_for_individual_tm_dev()
     # Add entry to descriptor file
     _basetmdevfile=`basename "${_tmfile}"`
     _relative_newtmdevfile="${_tm_status}/${_basetmdevfile}"    
-    echo "${_tmtype} ${_relative_newtmdevfile} ${_tm_status}" >> "${outd}/tm_dev/tm_desc"
+    echo "${_tmtype} ${_relative_newtmdevfile} ${_tm_status}" >> "${outd}/tm_dev/tm_desc" || { echo "Error while preparing translation model files" >&2 ; return 1; }
 }
 
 ########
 list_tm_entry_info()
 {
     tmdesc=$1
-    "$TAIL" -n +2 ${tmdesc} | "$AWK" '{printf"%s,%s,%s\n",$1,$2,$3}'
+    "$TAIL" -n +2 ${tmdesc} | "$AWK" '{printf"%s,%s,%s\n",$1,$2,$3}' ; ${PIPE_FAIL} || return 1
 }
 
 ########
 create_tm_dev_files()
 {
     # Obtain path of tm file
-    tmfile=`"$GREP" "\-tm " $cmdline_cfg | $AWK '{printf"%s",$2}'`
+    tmfile="`get_tm_from_cfgfile "$cmdline_cfg"`"
 
     # Check that tm file could be obtained
     if [ -z "$tmfile" ]; then
@@ -350,15 +351,16 @@ create_tm_dev_files()
     fi
 
     # Check if tm file is a descriptor
-    is_desc=`check_if_file_is_desc "${tmfile}"`
+    is_desc=`check_if_file_is_desc "${tmfile}"` || return 1
 
     if [ ${is_desc} -eq 1 ]; then
         # Create descriptor
-        echo "thot tm descriptor" > "${outd}/tm_dev/tm_desc"
+        echo "thot tm descriptor" > "${outd}/tm_dev/tm_desc" || return 1
 
         # Create files for the different translation models
         tmdesc_dirname=`$DIRNAME $tmfile`
-        for tm_entry in `list_tm_entry_info $tmfile`; do
+        tm_entries=`list_tm_entry_info $tmfile` || return 1
+        for tm_entry in ${tm_entries}; do
             curr_tmtype=`echo "${tm_entry}" | "$AWK" -F "," '{printf"%s",$1}'`
             curr_tmfile=`echo "${tm_entry}" | "$AWK" -F "," '{printf"%s",$2}'`
             curr_status=`echo "${tm_entry}" | "$AWK" -F "," '{printf"%s",$3}'`
@@ -370,7 +372,7 @@ create_tm_dev_files()
         newtmdevfile="${outd}/tm_dev/${basetmfile}"
     else
         # Create descriptor
-        echo "thot tm descriptor" > "${outd}/tm_dev/tm_desc"
+        echo "thot tm descriptor" > "${outd}/tm_dev/tm_desc" || return 1
 
         # Create files for individual translation model
         process_files_for_individual_tm_dev "" "${tmfile}" "main" || return 1
@@ -423,7 +425,7 @@ process_files_for_individual_tm()
     # Add entry to descriptor file
     _basetmfile=`basename "${_tmfile}"`
     _relative_newtmfile="${_tm_status}/${_basetmfile}"    
-    echo "${_tmtype} ${_relative_newtmfile} ${_tm_status}" >> "${outd}/tm/tm_desc"    
+    echo "${_tmtype} ${_relative_newtmfile} ${_tm_status}" >> "${outd}/tm/tm_desc" || { echo "Error while preparing translation model files" >&2 ; return 1; }
 }
 
 ########
@@ -448,15 +450,16 @@ create_tm_files()
     fi
 
     # Check if tm file is a descriptor
-    is_desc=`check_if_file_is_desc "${tmfile}"`
+    is_desc=`check_if_file_is_desc "${tmfile}"` || return 1
 
     if [ ${is_desc} -eq 1 ]; then
         # Create descriptor
-        echo "thot tm descriptor" > "${outd}/tm/tm_desc"
+        echo "thot tm descriptor" > "${outd}/tm/tm_desc" || return 1
 
         # Create files for the different translation models
         tmdesc_dirname=`"$DIRNAME" "$tmfile"`
-        for tm_entry in `list_tm_entry_info $tmfile`; do
+        tm_entries=`list_tm_entry_info $tmfile` || return 1
+        for tm_entry in ${tm_entries}; do
             curr_tmtype=`echo "${tm_entry}" | "$AWK" -F "," '{printf"%s",$1}'`
             curr_tmfile=`echo "${tm_entry}" | "$AWK" -F "," '{printf"%s",$2}'`
             curr_status=`echo "${tm_entry}" | "$AWK" -F "," '{printf"%s",$3}'`
@@ -468,7 +471,7 @@ create_tm_files()
         newtmfile="${outd}/tm/${basetmfile}"
     else
         # Create descriptor
-        echo "thot tm descriptor" > "${outd}/tm/tm_desc"
+        echo "thot tm descriptor" > "${outd}/tm/tm_desc" || return 1
 
         # Create files for individual translation model
         process_files_for_individual_tm "" "${tmfile}" "main" || return 1
@@ -490,24 +493,25 @@ filter_ttable()
     
     # Filter table
     ${bindir}/thot_pbs_filter_ttable -t "${_tmfile}.ttable" \
-        -c ${_scorpus_wo_metadata} -n 20 -T "$tdir" ${qs_opt} "${qs_par}" -o "${_filt_outd}/${_basetmfile}.ttable"
+        -c ${_scorpus_wo_metadata} -n 20 -T "$tdir" -sdir "$sdir" ${qs_opt} "${qs_par}" -o "${_filt_outd}/${_basetmfile}.ttable"
 }
 
 ########
 filter_ttables()
 {
     # Check if tm file is a descriptor
-    is_desc=`check_if_file_is_desc "${tmfile}"`
+    is_desc=`check_if_file_is_desc "${tmfile}"` || return 1
 
     if [ ${is_desc} -eq 1 ]; then
         # Filter tables for the different translation models
         tmdesc_dirname=`$DIRNAME ${tmfile}`
-        for tm_entry in `list_tm_entry_info ${tmfile}`; do
+        tm_entries=`list_tm_entry_info ${tmfile}` || return 1
+        for tm_entry in ${tm_entries}; do
             curr_tmtype=`echo "${tm_entry}" | "$AWK" -F "," '{printf"%s",$1}'`
             curr_tmfile=`echo "${tm_entry}" | "$AWK" -F "," '{printf"%s",$2}'`
             curr_status=`echo "${tm_entry}" | "$AWK" -F "," '{printf"%s",$3}'`
             curr_tmfile_dirname=`"$DIRNAME" $curr_tmfile`
-            filter_ttable "${tmdesc_dirname}/${curr_tmfile}" "${scorpus_wo_metadata}" "${outd}/tm_dev/${curr_tmfile_dirname}"
+            filter_ttable "${tmdesc_dirname}/${curr_tmfile}" "${scorpus_wo_metadata}" "${outd}/tm_dev/${curr_tmfile_dirname}" || return 1
         done
     else
         filter_ttable "${tmfile}" "${scorpus_wo_metadata}" "${outd}/tm_dev/main"
@@ -624,7 +628,7 @@ linear_interp_upd()
 create_cfg_file_for_tuned_sys()
 {
     # Obtain log-linear weights
-    smtweights=`cat "${outd}/llweights_tune.out"`
+    smtweights=`cat "${outd}/llweights_tune.out"` || return 1
 
     # Print data regarding development files
     echo "# [SCRIPT_INFO] tool: thot_smt_tune"
@@ -634,7 +638,7 @@ create_cfg_file_for_tuned_sys()
     echo "# [SCRIPT_INFO]"
 
     # Create file from command line file
-    cat "${outd}/tune_loglin.cfg" | "$SED" s'@/tm_dev/@/tm/@'| \
+    "$SED" s'@/tm_dev/@/tm/@' "${outd}/tune_loglin.cfg" | \
         "$AWK" -v smtweights="$smtweights" \
                             '{
                                if($1=="#" && $2=="-tmw")
@@ -642,7 +646,7 @@ create_cfg_file_for_tuned_sys()
                                  printf"-tmw %s\n",smtweights
                                }
                                else printf "%s\n",$0
-                             }'
+                             }' ; ${PIPE_FAIL} || return 1
 }
 
 ########
@@ -658,7 +662,7 @@ tune_tm()
 
     if [ ${lm_dir_already_exist} -eq 0 ]; then
         # Create initial lm files
-        create_lm_files
+        create_lm_files || return 1
     fi
 
     ######
@@ -668,7 +672,7 @@ tune_tm()
 
     # Extract source sentences from file
     scorpus_wo_metadata="${outd}"/src_corpus_without_metadata
-    "${bindir}"/thot_get_srcsents_from_metadata -f "${scorpus}" > "${scorpus_wo_metadata}" 2>/dev/null
+    "${bindir}"/thot_get_srcsents_from_metadata -f "${scorpus}" > "${scorpus_wo_metadata}" 2>/dev/null || { echo "Error while extracting source sentences" >&2 ; return 1; }
 
     # Filter translation table
     echo "" >&2
@@ -683,7 +687,7 @@ tune_tm()
     fi
 
     # Create cfg file for tuning
-    create_cfg_file_for_tuning > "${outd}/tune_loglin.cfg"
+    create_cfg_file_for_tuning > "${outd}/tune_loglin.cfg" || return 1
 
     # Tune log-linear model
     echo "" >&2
@@ -700,7 +704,7 @@ tune_tm()
     create_tm_files || return 1
 
     # Create cfg file of tuned system
-    create_cfg_file_for_tuned_sys > "${outd}/tuned_for_dev.cfg"
+    create_cfg_file_for_tuned_sys > "${outd}/tuned_for_dev.cfg" || return 1
 }
 
 ########
@@ -849,7 +853,7 @@ else
     if [ -d ${outd} ]; then
         echo "Warning! output directory does exist" >&2 
     else
-        mkdir -p ${outd} || { echo "Error! cannot create output directory" >&2; return 1; }
+        mkdir -p ${outd} || { echo "Error! cannot create output directory" >&2; exit 1; }
     fi
     # Obtain absolute path
     outd=`get_absolute_path $outd`
-- 
2.43.0


From e38d94d0c9ecf18d16c6e892d2ffd99565f6fde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:32 +0000
Subject: [PATCH 58/61] fix: log-linear weights lost when no better ones are
 found by KbMira

---
 src/stack_dec/KbMiraLlWu.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stack_dec/KbMiraLlWu.cc b/src/stack_dec/KbMiraLlWu.cc
index 1ca4bae..0049fa9 100644
--- a/src/stack_dec/KbMiraLlWu.cc
+++ b/src/stack_dec/KbMiraLlWu.cc
@@ -68,7 +68,7 @@ void KbMiraLlWu::update(const std::string& reference,
 
   assert (nblist.size() == scoreCompsVec.size());
 
-  std::vector<double> max_wAvg;
+  std::vector<double> max_wAvg(currWeightsVec); // weights are kept if no better ones are found
   double quality, max_quality = 0;
 
   scorer->resetBackgroundCorpus();
@@ -163,7 +163,7 @@ void KbMiraLlWu::updateClosedCorpus(const std::vector<std::string>& references,
   // std::cerr << bleu << std::endl;
   // //##########################################################################
 
-  std::vector<double> max_wAvg;
+  std::vector<double> max_wAvg(currWeightsVec); // weights are kept if no better ones are found
   double quality, max_quality = 0;
 
   scorer->resetBackgroundCorpus();
-- 
2.43.0


From 162a82d291082a496fe8052d994b59863e66b4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:32 +0000
Subject: [PATCH 59/61] fix: failed steps of thot_ll_weight_upd unnoticed,
 temporary files outside -tdir

---
 .../error_correction/thot_merge_nbest_list.sh | 16 +++++---
 .../thot_obtain_best_trans_from_nbl.sh        |  5 ++-
 utils/stack_dec/thot_filter_nblist.sh         | 27 ++++++++----
 utils/stack_dec/thot_ll_weight_upd.sh         | 41 ++++++++++---------
 4 files changed, 56 insertions(+), 33 deletions(-)

diff --git a/utils/error_correction/thot_merge_nbest_list.sh b/utils/error_correction/thot_merge_nbest_list.sh
index 0331a25..d2be74f 100644
--- a/utils/error_correction/thot_merge_nbest_list.sh
+++ b/utils/error_correction/thot_merge_nbest_list.sh
@@ -3,6 +3,9 @@
 
 # Merges two n-best list files.
 
+# INCLUDE BASH LIBRARY
+. "${bindir}"/thot_general_lib || exit 1
+
 ##########
 obtain_nbl_weight_names()
 {
@@ -59,7 +62,7 @@ print_nblist_header()
 print_nblist_entries()
 {
     cat $file1 $file2 | "${AWK}" '{if($1!="#") {$1="-"; printf"%s\n",$0}}' | \
-        LC_ALL=C "${SORT}" | "$UNIQ" | "$AWK" '{printf"%s\n",$0}'
+        LC_ALL=C "${SORT}" | "$UNIQ" | "$AWK" '{printf"%s\n",$0}' ; ${PIPE_FAIL} || return 1
 }
 
 ##########
@@ -73,25 +76,28 @@ else
     # Verify parameters
     if [ ! -f "${file1}" ]; then
         echo "Error: file ${file1} does not exist" >&2
+        exit 1
     fi
 
     if [ ! -f "${file2}" ]; then
         echo "Error: file ${file2} does not exist" >&2
+        exit 1
     fi
 
     # Obtain weight names
-    nbl1_weight_names=$(obtain_nbl_weight_names "$file1")
-    nbl2_weight_names=$(obtain_nbl_weight_names "$file2")
+    nbl1_weight_names=$(obtain_nbl_weight_names "$file1") || exit 1
+    nbl2_weight_names=$(obtain_nbl_weight_names "$file2") || exit 1
 
     # Verify that the two n-best lists have the same weights
     ret=`nbls_have_same_weights`
     if [ $ret -eq 0 ]; then
         echo "Error: n-best lists have different sets of weights" >&2
+        exit 1
     fi
     
     # Print header
-    print_nblist_header
+    print_nblist_header || exit 1
     
     # Print merged n-best list entries
-    print_nblist_entries
+    print_nblist_entries || exit 1
 fi
diff --git a/utils/error_correction/thot_obtain_best_trans_from_nbl.sh b/utils/error_correction/thot_obtain_best_trans_from_nbl.sh
index adc873d..0ed3281 100644
--- a/utils/error_correction/thot_obtain_best_trans_from_nbl.sh
+++ b/utils/error_correction/thot_obtain_best_trans_from_nbl.sh
@@ -4,6 +4,9 @@
 # Obtains the best translation given an n-best list file generated by
 # means of the thot_process_wg tool and a set of weights.
 
+# INCLUDE BASH LIBRARY
+. "${bindir}"/thot_general_lib || exit 1
+
 get_trans()
 {
     ${AWK} '{
@@ -27,6 +30,6 @@ else
     file=$1
     weights=$2
     cat "$file" | "$bindir"/thot_rescore_nbest "$weights" | "${TAIL}" -n +2 | LC_ALL=C "${SORT}" -k1nr \
-        | "${AWK}" '{if(FNR==1) printf"%s\n",$0}' | get_trans
+        | "${AWK}" '{if(FNR==1) printf"%s\n",$0}' | get_trans ; ${PIPE_FAIL} || exit 1
     # NOTE: 'awk' is used above instead of 'head' to avoid Broken Pipe errors due to SIGPIPE signal
 fi
diff --git a/utils/stack_dec/thot_filter_nblist.sh b/utils/stack_dec/thot_filter_nblist.sh
index 80fd5f5..16ee138 100644
--- a/utils/stack_dec/thot_filter_nblist.sh
+++ b/utils/stack_dec/thot_filter_nblist.sh
@@ -4,6 +4,9 @@
 # Filter those entries n-best list file not satisfying translation
 # constraints.
 
+# INCLUDE BASH LIBRARY
+. "${bindir}"/thot_general_lib || exit 1
+
 ########
 print_desc()
 {
@@ -23,10 +26,12 @@ version()
 ########
 usage()
 {
-    echo "thot_filter_nblist   -n <string> -p <string> [--help] [--version]"
+    echo "thot_filter_nblist   -n <string> -p <string> [-tdir <string>]"
+    echo "                     [--help] [--version]"
     echo ""
     echo "-n <string>          File containing n-best list."
     echo "-p <string>          Prefix of .wg and .idx files."
+    echo "-tdir <string>       Directory for temporary files (/tmp by default)."
     echo "--help               Display this help and exit."
     echo "--version            Output version information and exit."
     echo ""
@@ -36,7 +41,7 @@ usage()
 get_src_sent_with_metadata()
 {
     _idxfile=$1
-    "$HEAD" -1 "${_idxfile}" | "$AWK" '{for(i=4;i<=NF;++i){printf "%s",$i; if(i!=NF) printf" "} printf"\n"}'
+    "$HEAD" -1 "${_idxfile}" | "$AWK" '{for(i=4;i<=NF;++i){printf "%s",$i; if(i!=NF) printf" "} printf"\n"}' ; ${PIPE_FAIL} || return 1
 }
 
 ########
@@ -91,6 +96,7 @@ fi
 # Read parameters
 n_given=0
 p_given=0
+tdir=/tmp
 
 while [ $# -ne 0 ]; do
     case $1 in
@@ -112,6 +118,11 @@ while [ $# -ne 0 ]; do
                 p_given=1
             fi
             ;;
+        "-tdir") shift
+            if [ $# -ne 0 ]; then
+                tdir=$1
+            fi
+            ;;
     esac
     shift
 done
@@ -142,7 +153,7 @@ else
     fi
 fi
 
-TDIR=`"${MKTEMP}" -d /tmp/thot_filter_nblist_XXXXXX`
+TDIR=`"${MKTEMP}" -d "${tdir}"/thot_filter_nblist_XXXXXX` || exit 1
 
 # Remove temp directories on exit
 trap 'rm -rf "$TDIR" 2>/dev/null' EXIT
@@ -150,19 +161,19 @@ trap 'rm -rf "$TDIR" 2>/dev/null' EXIT
 # Process parameters
 
 # Obtain segmentation info for n-best list entries
-"${bindir}"/thot_get_nblist_segm_info -n "${nblfile}" -p "${prefix}" > "$TDIR"/segm_info
+"${bindir}"/thot_get_nblist_segm_info -n "${nblfile}" -p "${prefix}" > "$TDIR"/segm_info || exit 1
 
 # Obtain source sentence with metadata
-get_src_sent_with_metadata "${prefix}".idx > "$TDIR"/srcsent
+get_src_sent_with_metadata "${prefix}".idx > "$TDIR"/srcsent || exit 1
 
 # Obtain target sentences
-get_trg_sents "${nblfile}" > "$TDIR"/trgsents
+get_trg_sents "${nblfile}" > "$TDIR"/trgsents || exit 1
 
 # Obtain alignment info
-get_alig_info "$TDIR"/segm_info > "$TDIR"/aliginfo
+get_alig_info "$TDIR"/segm_info > "$TDIR"/aliginfo || exit 1
 
 # Obtain constraint checking info
-"${bindir}"/thot_check_constraints -s "$TDIR"/srcsent -t "$TDIR"/trgsents -a "$TDIR"/aliginfo > "$TDIR"/checkinginfo
+"${bindir}"/thot_check_constraints -s "$TDIR"/srcsent -t "$TDIR"/trgsents -a "$TDIR"/aliginfo > "$TDIR"/checkinginfo || exit 1
 
 # Filter n-best list file
 filter_nblist "${nblfile}" "$TDIR"/checkinginfo
diff --git a/utils/stack_dec/thot_ll_weight_upd.sh b/utils/stack_dec/thot_ll_weight_upd.sh
index 786ab0a..a9f8b27 100644
--- a/utils/stack_dec/thot_ll_weight_upd.sh
+++ b/utils/stack_dec/thot_ll_weight_upd.sh
@@ -1,6 +1,9 @@
 # Author: Daniel Ortiz Mart\'inez
 # *- bash -*
 
+# INCLUDE BASH LIBRARY
+. "${bindir}"/thot_general_lib || exit 1
+
 ##################
 print_desc()
 {
@@ -168,8 +171,8 @@ gen_nbest_lists_iter()
         # specific circumstances, a certain translation may violate
         # constraints)
         prefix="${wgfile%.*}"
-        "${bindir}"/thot_filter_nblist -n "${TDIR_LLWU}"/nblist/${niter}_${sentid}.nbl -p "$prefix" > "${TDIR_LLWU}"/nbl_filt || return 1
-        mv "${TDIR_LLWU}"/nbl_filt "${TDIR_LLWU}"/nblist/${niter}_${sentid}.nbl
+        "${bindir}"/thot_filter_nblist -n "${TDIR_LLWU}"/nblist/${niter}_${sentid}.nbl -p "$prefix" -tdir "${TDIR_LLWU}" > "${TDIR_LLWU}"/nbl_filt || return 1
+        mv "${TDIR_LLWU}"/nbl_filt "${TDIR_LLWU}"/nblist/${niter}_${sentid}.nbl || return 1
         
     done
     
@@ -194,11 +197,11 @@ obtain_trans_quality_from_nblists()
 
     # Obtain best translations for current iteration
     for nblfile in ${local_pref}*.nbl; do
-        "${bindir}"/thot_obtain_best_trans_from_nbl "$nblfile" "${llweights}" >> "${local_outfile}"
+        "${bindir}"/thot_obtain_best_trans_from_nbl "$nblfile" "${llweights}" >> "${local_outfile}" || return 1
     done
             
     # Calculate translation quality
-    local_quality=`"$bindir"/thot_scorer -r "${reffile}" -t "${local_outfile}" | "$AWK" '{printf"%s",$2}'`
+    local_quality=`"$bindir"/thot_scorer -r "${reffile}" -t "${local_outfile}" | "$AWK" '{printf"%s",$2}' ; ${PIPE_FAIL}` || return 1
 
     echo ${local_quality}
 }
@@ -212,7 +215,7 @@ obtain_curr_nblists()
         for nblfile in "${TDIR_LLWU}"/nblist/${niter}*.nbl; do
             basenblfile=`"$BASENAME" "$nblfile"`
             sentid=`get_sentid "${basenblfile}"`
-            cp "$nblfile" "${TDIR_LLWU}"/curr_nblist/$sentid.nbl
+            cp "$nblfile" "${TDIR_LLWU}"/curr_nblist/$sentid.nbl || return 1
         done
     else
         # During subsequent iterations, current n-best lists are
@@ -222,7 +225,7 @@ obtain_curr_nblists()
             basenblfile=`"$BASENAME" "$nblfile"`
             sentid=`get_sentid "${basenblfile}"`
             "${bindir}"/thot_merge_nbest_list "$nblfile" "${TDIR_LLWU}"/curr_nblist/$sentid.nbl > "${TDIR_LLWU}"/temp.nbl || return 1
-            mv "${TDIR_LLWU}"/temp.nbl "${TDIR_LLWU}"/curr_nblist/$sentid.nbl
+            mv "${TDIR_LLWU}"/temp.nbl "${TDIR_LLWU}"/curr_nblist/$sentid.nbl || return 1
         done
     fi
 }
@@ -248,7 +251,7 @@ proc_curr_nblists()
     # Generate file containing file names of current n-best lists
     if [ ! -f "${TDIR_LLWU}"/nbl_files.txt ]; then
         for file in "${TDIR_LLWU}"/curr_nblist/*nbl; do
-            echo $file >> "${TDIR_LLWU}"/nbl_files.txt
+            echo $file >> "${TDIR_LLWU}"/nbl_files.txt || return 1
         done
     fi
     
@@ -260,7 +263,7 @@ proc_curr_nblists()
 ##################
 get_new_llweights()
 {
-    "$TAIL" -1 "${TDIR_LLWU}"/weights_per_iter.txt | "$AWK" '{for(i=3;i<=NF;++i){printf"%s",$i; if(i!=NF) printf" "}}'
+    "$TAIL" -1 "${TDIR_LLWU}"/weights_per_iter.txt | "$AWK" '{for(i=3;i<=NF;++i){printf"%s",$i; if(i!=NF) printf" "}}' ; ${PIPE_FAIL} || return 1
 }
 
 ##################
@@ -453,17 +456,17 @@ fi
 
 if [ ! -d "${sdir}" ]; then
     echo "Error: shared directory does not exist" >&2
-    return 1;
+    exit 1;
 fi
 
 # Create tmp directory
 
 if [ ! -d "${tdir}" ]; then
     echo "Error: tmp directory does not exist" >&2
-    return 1;
+    exit 1;
 fi
 
-TDIR_LLWU=`"${MKTEMP}" -d "${tdir}"/thot_ll_weight_upd_XXXXXX`
+TDIR_LLWU=`"${MKTEMP}" -d "${tdir}"/thot_ll_weight_upd_XXXXXX` || exit 1
 
 # Remove temp directories on exit
 if [ "$debug" != "-debug" ]; then
@@ -471,10 +474,10 @@ if [ "$debug" != "-debug" ]; then
 fi
 
 # Create additional directories
-mkdir "${TDIR_LLWU}"/trans
-mkdir "${TDIR_LLWU}"/wg
-mkdir "${TDIR_LLWU}"/nblist
-mkdir "${TDIR_LLWU}"/curr_nblist
+mkdir "${TDIR_LLWU}"/trans || exit 1
+mkdir "${TDIR_LLWU}"/wg || exit 1
+mkdir "${TDIR_LLWU}"/nblist || exit 1
+mkdir "${TDIR_LLWU}"/curr_nblist || exit 1
 
 # Obtain translation model weights information
 raw_llweights=`obtain_cfg_llweights`
@@ -484,7 +487,7 @@ llweights_values=`extract_weight_values "${raw_llweights}"`
 # Verify that weight info was successfully obtained
 if [ -z "${raw_llweights}" ]; then
     echo "Weight info could not be obtained, check that $cfgfile is correct (use thot_server tool with -w option)">&2
-    return 1
+    exit 1
 fi
 
 # Obtain first iteration weights
@@ -504,7 +507,7 @@ while [ 1 ]; do
     gen_nbest_lists_iter || exit 1
 
     # Obtain translation quality
-    quality=`obtain_trans_quality_from_nblists ${TDIR_LLWU}/nblist/${niter} ${TDIR_LLWU}/${niter}_best_trans`
+    quality=`obtain_trans_quality_from_nblists ${TDIR_LLWU}/nblist/${niter} ${TDIR_LLWU}/${niter}_best_trans` || exit 1
     trans_qual_vector="${trans_qual_vector} ${quality}"
     echo "* Current translation quality: ${quality}" >&2
 
@@ -533,13 +536,13 @@ while [ 1 ]; do
     proc_curr_nblists || exit 1
 
     # Get new log-linear model weights
-    llweights=`get_new_llweights`
+    llweights=`get_new_llweights` || exit 1
     weight_info=`print_weights "${llweights_names}" "${llweights}"`
     echo "* New weights: ${weight_info}" >&2
         
     # Obtain translation quality for new weights
     if [ "$debug" = "-debug" ]; then
-        quality=`obtain_trans_quality_from_nblists ${TDIR_LLWU}/nblist/${niter} ${TDIR_LLWU}/${niter}_best_trans_new_weights`
+        quality=`obtain_trans_quality_from_nblists ${TDIR_LLWU}/nblist/${niter} ${TDIR_LLWU}/${niter}_best_trans_new_weights` || exit 1
         echo "* Translation quality for new weights: ${quality}" >&2
     fi
     
-- 
2.43.0


From d3762aad12c896b892be55260c511f8208004c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:57 +0000
Subject: [PATCH 60/61] fix: weight names cut short when thot_server -w fails

---
 utils/exper/thot_smt_tune.sh          | 10 +++++-----
 utils/stack_dec/thot_ll_weight_upd.sh |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/utils/exper/thot_smt_tune.sh b/utils/exper/thot_smt_tune.sh
index 346aac1..04919fe 100644
--- a/utils/exper/thot_smt_tune.sh
+++ b/utils/exper/thot_smt_tune.sh
@@ -532,7 +532,7 @@ create_cfg_file_for_tuning()
 ##################
 obtain_smtweights_names()
 {
-    _line=`"${bindir}"/thot_server -c "${outd}/tune_loglin.cfg" -w 2> /dev/null | "$HEAD" -1`
+    _line=`"${bindir}"/thot_server -c "${outd}/tune_loglin.cfg" -w 2> /dev/null | "$AWK" '{if(NR==1) print $0}' ; ${PIPE_FAIL}` || return 1
     _smtw_names=`echo "${_line}" | "$AWK" '{for(i=5;i<=NF;i+=3) printf"%s ",substr($i,1,length($i)-1)}'`
     echo "${_smtw_names}"
 }
@@ -540,21 +540,21 @@ obtain_smtweights_names()
 ########
 obtain_loglin_nonneg_const()
 {
-    _smtw_names=`obtain_smtweights_names`
+    _smtw_names=`obtain_smtweights_names` || return 1
     echo "${_smtw_names}" | "$AWK" '{for(i=1;i<=NF;++i) if($i=="wpw" || $i=="tseglenw" || $i=="trg_phr_lenw") printf"0 "; else printf"1 "}'
 }
 
 ########
 obtain_loglin_dhs_va_opt_values()
 {
-    _smtw_names=`obtain_smtweights_names`
+    _smtw_names=`obtain_smtweights_names` || return 1
     echo "${_smtw_names}" | "$AWK" '{for(i=1;i<=NF;++i) if($i=="swlenliw") printf"0 "; else printf"-0 "}'
 }
 
 ########
 obtain_loglin_iv_opt_values()
 {
-    _smtw_names=`obtain_smtweights_names`
+    _smtw_names=`obtain_smtweights_names` || return 1
     echo "${_smtw_names}" | "$AWK" '{for(i=1;i<=NF;++i) printf"1 "}'
 }
 
@@ -589,7 +589,7 @@ loglin_downhill()
 ########
 obtain_loglin_upd_va_opt_values()
 {
-    _smtw_names=`obtain_smtweights_names`
+    _smtw_names=`obtain_smtweights_names` || return 1
     echo "${_smtw_names}" | "$AWK" '{for(i=1;i<=NF;++i) printf"1 "}'
 }
 
diff --git a/utils/stack_dec/thot_ll_weight_upd.sh b/utils/stack_dec/thot_ll_weight_upd.sh
index a9f8b27..e34fbfd 100644
--- a/utils/stack_dec/thot_ll_weight_upd.sh
+++ b/utils/stack_dec/thot_ll_weight_upd.sh
@@ -91,7 +91,7 @@ get_sentid()
 ##################
 obtain_cfg_llweights()
 {
-    local_line=`"$bindir"/thot_server -c "$cfgfile" -w 2>/dev/null | $HEAD -1`
+    local_line=`"$bindir"/thot_server -c "$cfgfile" -w 2>/dev/null | "$AWK" '{if(NR==1) print $0}' ; ${PIPE_FAIL}` || return 1
     echo "${local_line}"
 }
 
@@ -480,7 +480,7 @@ mkdir "${TDIR_LLWU}"/nblist || exit 1
 mkdir "${TDIR_LLWU}"/curr_nblist || exit 1
 
 # Obtain translation model weights information
-raw_llweights=`obtain_cfg_llweights`
+raw_llweights=`obtain_cfg_llweights` || raw_llweights=""
 llweights_names=`extract_weight_names "${raw_llweights}"`
 llweights_values=`extract_weight_values "${raw_llweights}"`
 
-- 
2.43.0


From 2050e576b3a181f29dac85fd67e10da7c80fb3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:21 +0000
Subject: [PATCH 61/61] Revert the changes of thot_prepare_sys_for_test (its
 name makes it look like a test file)

---
 utils/exper/thot_prepare_sys_for_test.sh | 59 ++++++++++--------------
 1 file changed, 24 insertions(+), 35 deletions(-)

diff --git a/utils/exper/thot_prepare_sys_for_test.sh b/utils/exper/thot_prepare_sys_for_test.sh
index 194c3eb..aa9f3f8 100644
--- a/utils/exper/thot_prepare_sys_for_test.sh
+++ b/utils/exper/thot_prepare_sys_for_test.sh
@@ -99,8 +99,7 @@ check_if_file_is_desc()
         echo 0
     else
         # File exists
-        _first_line=`"$HEAD" -1 "$file"` || return 1
-        nl=`echo "${_first_line}" | "$GREP" -e "thot lm descriptor" -e "thot tm descriptor" | "$WC" -l`
+        nl=`"$HEAD" -1 "$file" | "$GREP" -e "thot lm descriptor" -e "thot tm descriptor" | "$WC" -l`
         if [ $nl -eq 0 ]; then
             echo 0
         else
@@ -145,14 +144,14 @@ process_files_for_individual_lm()
     # Add entry to descriptor file
     _baselmfile=`basename "${_lmfile}"`
     _relative_newlmfile=${_lm_status}/${_baselmfile}    
-    echo "${_lmtype} ${_relative_newlmfile} ${_lm_status}" >> "${outd}/lm/lm_desc" || { echo "Error while preparing language model files" >&2 ; return 1; }
+    echo "${_lmtype} ${_relative_newlmfile} ${_lm_status}" >> "${outd}/lm/lm_desc"
 }
 
 ########
 list_lm_entry_info()
 {
     lmdesc=$1
-    "$TAIL" -n +2 ${lmdesc} | "$AWK" '{printf"%s,%s,%s\n",$1,$2,$3}' ; ${PIPE_FAIL} || return 1
+    "$TAIL" -n +2 ${lmdesc} | "$AWK" '{printf"%s,%s,%s\n",$1,$2,$3}'
 }
 
 ########
@@ -160,13 +159,6 @@ create_lm_files()
 {
     # Obtain path of lm file
     lmfile="`get_lm_from_cfgfile "$cmdline_cfg"`"
-
-    # Check that lm file could be obtained
-    if [ -z "$lmfile" ]; then
-        echo "Error! configuration file seems to be wrong" >&2
-        return 1
-    fi
-
     baselmfile=`basename "$lmfile"`
 
     # Create directory for lm files
@@ -176,17 +168,16 @@ create_lm_files()
         mkdir -p "${outd}/lm" || { echo "Error! cannot create directory for language model" >&2; return 1; }
     fi
 
-    # Check if lm file is a descriptor
-    is_desc=`check_if_file_is_desc "${lmfile}"` || return 1
+    # Check if tm file is a descriptor
+    is_desc=`check_if_file_is_desc "${lmfile}"`
 
     if [ ${is_desc} -eq 1 ]; then
         # Create descriptor
-        echo "thot lm descriptor" > "${outd}/lm/lm_desc" || return 1
+        echo "thot lm descriptor" > "${outd}/lm/lm_desc"
 
         # Create files for the different language models
         lmdesc_dirname=`$DIRNAME $lmfile`
-        lm_entries=`list_lm_entry_info $lmfile` || return 1
-        for lm_entry in ${lm_entries}; do
+        for lm_entry in `list_lm_entry_info $lmfile`; do
             curr_lmtype=`echo "${lm_entry}" | "$AWK" -F "," '{printf"%s",$1}'`
             curr_lmfile=`echo "${lm_entry}" | "$AWK" -F "," '{printf"%s",$2}'`
             curr_status=`echo "${lm_entry}" | "$AWK" -F "," '{printf"%s",$3}'`
@@ -194,20 +185,20 @@ create_lm_files()
         done
 
         # Copy weights for lm descriptor
-        cp "${lmfile}.weights" "${outd}/lm/" || { echo "Error while preparing language model files" >&2 ; return 1; }
+        cp "${lmfile}.weights" "${outd}/lm/"
 
         # Copy wp file for lm descriptor
-        cp "${lmfile}.wp" "${outd}/lm/" || { echo "Error while preparing language model files" >&2 ; return 1; }
+        cp "${lmfile}.wp" "${outd}/lm/"
 
         # Obtain new file name for lm descriptor
         baselmfile=`basename "$lmfile"`
         newlmfile="${outd}/lm/${baselmfile}"
     else
         # Create descriptor
-        echo "thot lm descriptor" > "${outd}/lm/lm_desc" || return 1
+        echo "thot lm descriptor" > "${outd}/lm/lm_desc"
 
         # Create files for individual language model
-        process_files_for_individual_lm "\$(${LIBDIR_VARNAME})/incr_jel_mer_ngram_lm_factory.so" "${lmfile}" "main" || return 1;
+        process_files_for_individual_lm "\$(${LIBDIR_VARNAME})/incr_jel_mer_ngram_lm_factory.so ${lmfile}" "main" || return 1;
 
         # Obtain new lm file name
         baselmfile=`basename "$lmfile"`
@@ -219,7 +210,7 @@ create_lm_files()
 list_tm_entry_info()
 {
     tmdesc=$1
-    "$TAIL" -n +2 ${tmdesc} | "$AWK" '{printf"%s,%s,%s\n",$1,$2,$3}' ; ${PIPE_FAIL} || return 1
+    "$TAIL" -n +2 ${tmdesc} | "$AWK" '{printf"%s,%s,%s\n",$1,$2,$3}'
 }
 
 ########
@@ -260,7 +251,7 @@ process_files_for_individual_tm()
     # Add entry to descriptor file
     _basetmfile=`basename "${_tmfile}"`
     _relative_newtmfile="${_tm_status}/${_basetmfile}"    
-    echo "${_tmtype} ${_relative_newtmfile} ${_tm_status}" >> "${outd}/tm/tm_desc" || { echo "Error while preparing translation model files" >&2 ; return 1; }
+    echo "${_tmtype} ${_relative_newtmfile} ${_tm_status}" >> "${outd}/tm/tm_desc"    
 }
 
 ########
@@ -285,16 +276,15 @@ create_tm_files()
     fi
 
     # Check if tm file is a descriptor
-    is_desc=`check_if_file_is_desc "${tmfile}"` || return 1
+    is_desc=`check_if_file_is_desc "${tmfile}"`
 
     if [ ${is_desc} -eq 1 ]; then
         # Create descriptor
-        echo "thot tm descriptor" > "${outd}/tm/tm_desc" || return 1
+        echo "thot tm descriptor" > "${outd}/tm/tm_desc"
 
         # Create files for the different translation models
         tmdesc_dirname=`$DIRNAME "$tmfile"`
-        tm_entries=`list_tm_entry_info $tmfile` || return 1
-        for tm_entry in ${tm_entries}; do
+        for tm_entry in `list_tm_entry_info $tmfile`; do
             curr_tmtype=`echo "${tm_entry}" | "$AWK" -F "," '{printf"%s",$1}'`
             curr_tmfile=`echo "${tm_entry}" | "$AWK" -F "," '{printf"%s",$2}'`
             curr_status=`echo "${tm_entry}" | "$AWK" -F "," '{printf"%s",$3}'`
@@ -306,7 +296,7 @@ create_tm_files()
         newtmfile="${outd}/tm/${basetmfile}"
     else
         # Create descriptor
-        echo "thot tm descriptor" > "${outd}/tm/tm_desc" || return 1
+        echo "thot tm descriptor" > "${outd}/tm/tm_desc"
 
         # Create files for individual translation model
         process_files_for_individual_tm "" "${tmfile}" "main" || return 1;
@@ -331,20 +321,19 @@ filter_ttable()
     _basetmfile=`basename "${_tmfile}"`
     _outd=$2
     "${bindir}"/thot_pbs_filter_ttable -t "${_tmfile}.ttable" \
-             -c "${tcorpus_wo_metadata}" -n 20 -T "$tdir" -sdir "$sdir" ${qs_opt} "${qs_par}" -o "${_outd}/${_basetmfile}.ttable" ${debug_opt}
+             -c "${tcorpus_wo_metadata}" -n 20 -T "$tdir" ${qs_opt} "${qs_par}" -o "${_outd}/${_basetmfile}.ttable" ${debug_opt}
 }
 
 ########
 filter_ttables()
 {
     # Check if tm file is a descriptor
-    is_desc=`check_if_file_is_desc ${tmfile}` || return 1
+    is_desc=`check_if_file_is_desc ${tmfile}`
 
     if [ ${is_desc} -eq 1 ]; then
         # Filter tables for the different translation models
         tmdesc_dirname=`$DIRNAME ${tmfile}`
-        tm_entries=`list_tm_entry_info ${tmfile}` || return 1
-        for tm_entry in ${tm_entries}; do
+        for tm_entry in `list_tm_entry_info ${tmfile}`; do
             curr_tmtype=`echo "${tm_entry}" | "$AWK" -F "," '{printf"%s",$1}'`
             curr_tmfile=`echo "${tm_entry}" | "$AWK" -F "," '{printf"%s",$2}'`
             curr_status=`echo "${tm_entry}" | "$AWK" -F "," '{printf"%s",$3}'`
@@ -366,7 +355,7 @@ generate_cfg_file()
     echo "# [SCRIPT_INFO]"
 
     # Create file from command line file
-    "$AWK" -v nlm="$newlmfile" -v ntm="$newtmfile" \
+    cat "$cmdline_cfg" | "$AWK" -v nlm="$newlmfile" -v ntm="$newtmfile" \
                          '{
                            if(!($1=="#" && $2=="[SCRIPT_INFO]"))
                            {
@@ -374,7 +363,7 @@ generate_cfg_file()
                             if($1=="-tm") $2=ntm
                             printf"%s\n",$0
                            }
-                          }' "$cmdline_cfg"
+                          }'
 }
 
 ########
@@ -482,7 +471,7 @@ else
         # echo "Error! output directory should not exist" >&2 
         # exit 1
     else
-        mkdir -p "${outd}/" || { echo "Error! cannot create output directory" >&2; exit 1; }
+        mkdir -p "${outd}/" || { echo "Error! cannot create output directory" >&2; return 1; }
     fi
     # Obtain absolute path
     outd=`get_absolute_path "$outd"`
@@ -515,4 +504,4 @@ get_srcsents_from_test 2>/dev/null || exit 1
 filter_ttables || exit 1
 
 # Generate cfg file
-generate_cfg_file > "${outd}/test_specific.cfg" || exit 1
+generate_cfg_file > "${outd}/test_specific.cfg"
-- 
2.43.0

