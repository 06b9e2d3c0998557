// Plain description of an E57 document, and its translation to and from the public API.
#pragma once

#include <cmath>
#include <cstdint>
#include <cstring>
#include <limits>
#include <memory>
#include <string>
#include <vector>

#include "E57Exception.h"
#include "E57Format.h"

#include "vh.hpp"

namespace m
{
   enum class T
   {
      Structure,
      Vector,
      CV,
      Integer,
      Scaled,
      Float,
      String,
      Blob
   };

   // Values of one field of a compressed vector
   struct Col
   {
      std::string path; // path in the prototype without the leading '/'
      T type = T::Integer;
      bool single = false;
      std::vector<int64_t> i; // Integer and raw Scaled
      std::vector<double> d;  // Float
      std::vector<std::string> s;
      size_t size() const
      {
         return type == T::Float ? d.size() : type == T::String ? s.size() : i.size();
      }
   };

   struct N
   {
      T type = T::Structure;
      std::string name;
      int64_t value = 0, min = INT64_MIN, max = INT64_MAX;
      double scale = 1.0, offset = 0.0;
      bool single = false;
      double fvalue = 0, fmin = -std::numeric_limits<double>::max(),
             fmax = std::numeric_limits<double>::max();
      std::string s;
      bool hetero = false;
      std::vector<N> kids;        // Structure and Vector; CV: [0] prototype, [1] codecs
      std::vector<uint8_t> bytes; // Blob
      int64_t records = 0;        // CV
      std::vector<Col> cols;      // CV, fields in prototype order
   };

   // ---- construction helpers ----
   N structure( const std::string &name, std::vector<N> kids = {} );
   N vec( const std::string &name, bool hetero, std::vector<N> kids = {} );
   N integer( const std::string &name, int64_t v = 0, int64_t lo = INT64_MIN, int64_t hi = INT64_MAX );
   N scaled( const std::string &name, int64_t raw, int64_t lo, int64_t hi, double scale = 1.0,
             double offset = 0.0 );
   N real( const std::string &name, double v = 0, bool single = false );
   N real( const std::string &name, double v, bool single, double lo, double hi );
   N str( const std::string &name, const std::string &v = "" );
   N blob( const std::string &name, std::vector<uint8_t> b );
   N cv( const std::string &name, N proto, std::vector<Col> cols = {} );

   // Leaf fields of a prototype, in order, with paths
   void leaves( const N &proto, const std::string &prefix, std::vector<std::pair<std::string, const N *>> &out );

   // First difference between two documents, empty when equal. "what" chooses whether binary content
   // (blob bytes and records) is compared as well.
   std::string diff( const N &a, const N &b, bool binary = true, const std::string &path = "" );
   std::string diffCol( const Col &a, const Col &b );

   bool sameDouble( double a, double b ); // equal, -0 == +0, NaN == NaN

   // ---- through the public API ----
   // Create an (unattached) API node; binary content is not written
   e57::Node create( const e57::ImageFile &imf, const N &n );
   // Attach the children of root to the file's root and write all binary content. Records are
   // written in blocks of at most "block" (0: all at once).
   void writeDoc( e57::ImageFile &imf, const N &root, size_t block = 0 );
   void writeBinary( const e57::Node &node, const e57::ImageFile &imf, const N &n, size_t block = 0 );
   void writeRecords( e57::CompressedVectorNode cvn, const e57::ImageFile &imf, const N &n,
                      size_t block );

   // Read a document back. Names of vector children are empty.
   N observe( const e57::Node &node, bool binary = true, size_t block = 0 );
   N observeFile( e57::ImageFile &imf, bool binary = true, size_t block = 0 );
   std::vector<Col> readRecords( e57::CompressedVectorNode cvn, const N &proto, size_t block );

   std::string show( const N &n, int depth = 0 );

   // Result of running something: "ok" or the name of the library error
   template <class F> std::string attempt( F f )
   {
      try
      {
         f();
         return "ok";
      }
      catch ( const e57::E57Exception &e )
      {
         return e57::Utilities::errorCodeToString( e.errorCode() ).substr( 0, 0 ) + std::to_string( e.errorCode() );
      }
   }

   std::vector<char> slurp( const std::string &path );
   void spit( const std::string &path, const std::vector<char> &b );
   bool exists( const std::string &path );

   // Deterministic byte pattern
   std::vector<uint8_t> pattern( size_t n, unsigned seed = 1 );

   // ---- memory buffers of every type ----
   // A strided buffer with guard bytes around and between its elements
   class Buf
   {
   public:
      Buf( e57::MemoryRepresentation rep, size_t capacity, size_t stride = 0 );
      e57::SourceDestBuffer sdb( const e57::ImageFile &imf, const std::string &path, bool conversion,
                                 bool scaling );
      void setInt( size_t i, int64_t v );
      void setReal( size_t i, double v );
      void setStr( size_t i, const std::string &v )
      {
         strs[i] = v;
      }
      int64_t getInt( size_t i ) const;
      double getReal( size_t i ) const;
      bool isReal() const
      {
         return rep == e57::Real32 || rep == e57::Real64;
      }
      // Fill all elements with a recognisable pattern
      void poison();
      bool elementPoisoned( size_t i ) const;
      // Throws when a guard byte changed or an element from "used" on changed
      void checkGuards( size_t used ) const;

      e57::MemoryRepresentation rep;
      size_t capacity, stride, width;
      std::vector<std::string> strs;

   private:
      std::vector<unsigned char> mem;
      unsigned char *at( size_t i )
      {
         return mem.data() + 32 + i * stride;
      }
      const unsigned char *at( size_t i ) const
      {
         return mem.data() + 32 + i * stride;
      }
   };
   extern const e57::MemoryRepresentation allReps[11];
   const char *repName( e57::MemoryRepresentation r );
   size_t repWidth( e57::MemoryRepresentation r );
}
