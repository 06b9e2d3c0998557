// Independent writer of E57 files with full control over the layout.
#pragma once

#include <functional>

#include "ref57.hpp"

namespace refw
{
   // The complete bytestream of a field
   std::vector<uint8_t> stream( const m::N &field, const m::Col &values, bool longPrefix = false );

   struct Packet
   {
      int type = 1;              // 0 index, 1 data, 2 empty
      std::vector<size_t> take;  // data: bytes of each stream
      size_t length = 0;         // empty: packet length (multiple of 4); data: extra padding
      std::vector<std::pair<uint64_t, size_t>> entries; // index: record number, number of the data packet
      int level = 0;
   };

   struct Layout
   {
      // How to cut the streams of a vector into packets
      std::function<std::vector<Packet>( const std::vector<size_t> &lengths )> cut;
      size_t gap = 0;       // unused logical bytes before each section (multiple of 4)
      bool xmlFirst = false; // XML section before the binary sections
      bool indexOffset = true; // store the offset of the first index packet
      // XML style
      bool indent = true, explicitDefaults = false, comments = false, cdata = true, reverseAttrs = false;
      std::string numberPad; // white space around numbers
      int attrs = 0; // bits: single quotes, character references, white space
      std::string prolog = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>";
      bool longPrefix = false; // eight byte length also for short strings
      std::vector<std::pair<std::string, std::string>> extensions;
      // Number of pages of zeros between the first part (header, XML if it comes first) and the rest
      uint64_t farPages = 0;
   };
   std::vector<Packet> onePacket( const std::vector<size_t> &lengths );
   std::vector<Packet> fixedCut( const std::vector<size_t> &lengths, size_t bytes );

   // Places of interest in the file that was produced
   struct Marks
   {
      std::vector<ref::Section> sections;
      std::vector<ref::PacketInfo> packets;
      uint64_t xmlStart = 0, xmlLength = 0;
      uint64_t farFrom = 0; // first page behind the far pages, counted without them
   };

   std::vector<uint8_t> writeLogical( const m::N &root, const Layout &layout, Marks *marks = nullptr );
   std::vector<char> write( const m::N &root, const Layout &layout, Marks *marks = nullptr );
   // A file with the given XML text and raw binary bytes at logical offset 48
   std::vector<char> withXml( const std::string &xml, const std::vector<uint8_t> &binary = {} );

   std::string xmlOf( const m::N &root, const Layout &layout );
   void put16( std::vector<uint8_t> &v, size_t at, uint64_t x );
   void put64( std::vector<uint8_t> &v, size_t at, uint64_t x );
   void put32( std::vector<uint8_t> &v, size_t at, uint64_t x );
   std::string real( double v, bool single );
}
