// Recording and fault-injecting stand-in for the file-system calls of the process.
//
// The functions open, open64, openat, creat, read, pread, write, pwrite, lseek, close, unlink,
// remove, rename, truncate, ftruncate, fsync, ... are defined in the harness executable, so calls
// made by the library (and by the libraries it uses through the dynamic linker) come here first.
// Nothing is altered unless a fault plan is armed. With "confine" on, destructive calls on paths
// outside the scratch directory are recorded and refused instead of being carried out.
#pragma once

#include <cstdint>
#include <map>
#include <string>
#include <vector>

namespace shim
{
   enum Kind
   {
      Open,
      Read,
      Write,
      Seek,
      Close,
      Remove,
      Trunc,
      Sync,
      Rename,
      Stat,
      NKinds
   };
   const char *kindName( Kind k );

   struct Call
   {
      Kind kind;
      int fd;
      std::string path;         // Open, Remove, Rename
      int flags = 0;            // Open
      int64_t offset = 0;       // file position before the call (Read, Write) or result (Seek)
      std::vector<char> data;   // Write: the bytes asked for, when data recording is on
      int64_t asked = 0, result = 0;
      bool injected = false;
   };

   enum Mode
   {
      Pass,
      Error,      // -1 with errno (EIO)
      NoSpace,    // -1 with ENOSPC; when closing, what was written last is lost
      Interrupted,// -1 with EINTR
      Short,      // half of the bytes
      ShortOne,   // one byte
      ShortAllBut,// all but one byte
      Zero        // returns 0
   };
   const char *modeName( Mode m );

   // Start recording calls on descriptors/paths below prefix. Calls are numbered from 0.
   void start( const std::string &prefix, bool recordData = false );
   void stop();
   std::vector<Call> &calls();
   uint64_t callCount();

   // Keep pages of zeros as holes of the file, so that huge files take little space. The checksum of
   // such a page is given.
   void sparse( bool on, uint32_t zeroSum = 0 );
   // From now on only holes that were written as pages are read as pages of zeros with their checksum
   void sparseWrittenOnly( bool on );

   // fault plan: call number -> mode
   void setFault( uint64_t call, Mode m );
   void setFaultFrom( uint64_t call, Kind kind, Mode m ); // all calls of this kind from then on
   void clearFaults();
   uint64_t injected(); // number of faults that took effect

   // every open of any path while recording
   struct Touch
   {
      std::string op, path;
      int flags;
   };
   std::vector<Touch> &touches();
   // descriptors opened below prefix and not yet closed
   std::vector<int> leaked();
}
