// One update call of more than 2^31 or 2^32 bytes. The data are zero pages, so the call costs only time, and a call that takes its whole
// argument is still busy after `secs` seconds: that ends the case. A call that returns earlier is compared with the digests of the messages
// cut at a narrower length (a collision is a wrong digest) and with the same message in small updates.
#pragma once
#include "env.h"
#include <functional>
#include <sys/mman.h>
#include <sys/wait.h>
#include <poll.h>
#include <signal.h>
#include <unistd.h>
// f(data, n, chunk): digest of a fixed prefix followed by n bytes, given in updates of `chunk` bytes
inline void wide_update(size_t n,int secs,const std::function<Bytes(const uint8_t*,size_t,size_t)>&f){
 int fd[2];REQUIRE(pipe(fd)==0,"harness: pipe");fflush(stdout);fflush(stderr);pid_t p=fork();REQUIRE(p>=0,"harness: fork");
 if(!p){ close(fd[0]);void*m=mmap(NULL,n,PROT_READ,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);if(m==MAP_FAILED)_exit(3);const uint8_t*d=(const uint8_t*)m;auto say=[&](char c){if(write(fd[1],&c,1)!=1)_exit(3);};
  Bytes r;try{r=f(d,n,n);}catch(...){say('x');_exit(0);}
  say('r');for(size_t cut:{(size_t)(n&0xffffffffu),(size_t)(n&0x7fffffffu),(size_t)(n&0xffffu),(size_t)0})if(cut<(1u<<20)&&f(d,cut,4096)==r){say('c');_exit(0);}
  say(f(d,n,1<<16)==r?'s':'d');_exit(0);}
 close(fd[1]);auto get=[&](int t)->char{struct pollfd q{fd[0],POLLIN,0};char c=0;if(poll(&q,1,t*1000)!=1)return 't';return read(fd[0],&c,1)==1?c:'e';};
 char a=get(secs),b=a=='r'?get(400):0;kill(p,SIGKILL);int st;waitpid(p,&st,0);close(fd[0]);
 label(a=='t'?"still busy":b=='s'?"finished, equal":b=='t'?"finished, not compared":"other");
 REQUIRE(a!='x',"an update of %zu bytes was refused",n);REQUIRE(a!='e',"an update of %zu bytes crashed (status %x)",n,st);
 REQUIRE(b!='c',"one update of %zu bytes gives the digest of a much shorter message",n);REQUIRE(b!='d',"one update of %zu bytes and the same bytes in updates of 64 KiB give different digests",n);REQUIRE(b!='e',"harness: comparison crashed (status %x)",st); }
inline size_t wide_len(Src&s){return ((size_t)1<<(s.flip()?32:31))+s.draw(200);}
