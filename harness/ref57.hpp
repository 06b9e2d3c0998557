// Independent decoder of E57 files, written from the layout of the file format. It shares no code
// with the library and accepts nothing but well-formed files.
#pragma once

#include <cstdint>
#include <map>
#include <string>
#include <vector>

#include "model.hpp"

namespace ref
{
   struct Bad
   {
      std::string msg;
   };

   uint32_t crc32c( const uint8_t *p, size_t n );

   struct Xml
   {
      std::string name;
      std::vector<std::pair<std::string, std::string>> attrs;
      std::vector<Xml> kids;
      std::string text;
      const std::string *attr( const std::string &n ) const
      {
         for ( auto &a : attrs )
            if ( a.first == n )
               return &a.second;
         return nullptr;
      }
   };
   Xml parseXml( const std::string &text );

   struct Section
   {
      std::string what;
      uint64_t start, length; // logical
   };
   struct PacketInfo
   {
      std::string cv;
      uint8_t type;
      uint64_t start, length; // logical
      std::vector<unsigned> streams;
   };

   struct Decoded
   {
      m::N root;
      std::string xml;
      uint64_t xmlStart = 0; // logical
      std::vector<std::pair<std::string, std::string>> extensions; // prefix, uri
      std::string defaultUri;
      std::vector<Section> sections;
      std::vector<PacketInfo> packets;
      std::vector<uint8_t> logical;
   };

   // Throws Bad when the bytes are not a well-formed file
   Decoded decode( const std::vector<char> &file );

   unsigned bitsFor( int64_t lo, int64_t hi );
   inline uint64_t toPhysical( uint64_t logical )
   {
      return logical / 1020 * 1024 + logical % 1020;
   }
   std::vector<char> pack( const std::vector<uint8_t> &logical ); // add page checksums
}
