#include "model.hpp"

#include <fstream>
#include <sstream>
#include <sys/stat.h>

using namespace vh;

namespace m
{
   N structure( const std::string &name, std::vector<N> kids )
   {
      N n;
      n.type = T::Structure;
      n.name = name;
      n.kids = std::move( kids );
      return n;
   }
   N vec( const std::string &name, bool hetero, std::vector<N> kids )
   {
      N n;
      n.type = T::Vector;
      n.name = name;
      n.hetero = hetero;
      n.kids = std::move( kids );
      for ( size_t i = 0; i < n.kids.size(); ++i )
         n.kids[i].name = std::to_string( i );
      return n;
   }
   N integer( const std::string &name, int64_t v, int64_t lo, int64_t hi )
   {
      N n;
      n.type = T::Integer;
      n.name = name;
      n.value = v;
      n.min = lo;
      n.max = hi;
      return n;
   }
   N scaled( const std::string &name, int64_t raw, int64_t lo, int64_t hi, double scale, double offset )
   {
      N n = integer( name, raw, lo, hi );
      n.type = T::Scaled;
      n.scale = scale;
      n.offset = offset;
      return n;
   }
   N real( const std::string &name, double v, bool single )
   {
      const double lim =
         single ? std::numeric_limits<float>::max() : std::numeric_limits<double>::max();
      return real( name, v, single, -lim, lim );
   }
   N real( const std::string &name, double v, bool single, double lo, double hi )
   {
      N n;
      n.type = T::Float;
      n.name = name;
      n.fvalue = v;
      n.single = single;
      n.fmin = lo;
      n.fmax = hi;
      return n;
   }
   N str( const std::string &name, const std::string &v )
   {
      N n;
      n.type = T::String;
      n.name = name;
      n.s = v;
      return n;
   }
   N blob( const std::string &name, std::vector<uint8_t> b )
   {
      N n;
      n.type = T::Blob;
      n.name = name;
      n.bytes = std::move( b );
      return n;
   }
   N cv( const std::string &name, N proto, std::vector<Col> cols )
   {
      N n;
      n.type = T::CV;
      n.name = name;
      proto.name = "prototype";
      n.kids.push_back( std::move( proto ) );
      n.kids.push_back( vec( "codecs", true ) );
      n.records = cols.empty() ? 0 : static_cast<int64_t>( cols[0].size() );
      n.cols = std::move( cols );
      return n;
   }

   void leaves( const N &p, const std::string &prefix, std::vector<std::pair<std::string, const N *>> &out )
   {
      if ( p.type == T::Structure || p.type == T::Vector )
      {
         for ( size_t i = 0; i < p.kids.size(); ++i )
         {
            const std::string nm = p.type == T::Vector ? std::to_string( i ) : p.kids[i].name;
            leaves( p.kids[i], prefix.empty() ? nm : prefix + "/" + nm, out );
         }
      }
      else
         out.emplace_back( prefix, &p );
   }

   bool sameDouble( double a, double b )
   {
      return a == b || ( a != a && b != b );
   }

   static const char *typeName( T t )
   {
      static const char *n[] = { "Structure", "Vector", "CompressedVector", "Integer",
                                 "ScaledInteger", "Float", "String", "Blob" };
      return n[static_cast<int>( t )];
   }

   std::string diffCol( const Col &a, const Col &b )
   {
      if ( a.path != b.path )
         return "field " + a.path + " vs " + b.path;
      if ( a.type != b.type )
         return "field " + a.path + ": type";
      if ( a.size() != b.size() )
         return fmt( "field %s: %zu vs %zu records", a.path.c_str(), a.size(), b.size() );
      for ( size_t k = 0; k < a.i.size(); ++k )
         if ( a.i[k] != b.i[k] )
            return fmt( "field %s record %zu: %lld vs %lld", a.path.c_str(), k,
                        static_cast<long long>( a.i[k] ), static_cast<long long>( b.i[k] ) );
      for ( size_t k = 0; k < a.d.size(); ++k )
         if ( memcmp( &a.d[k], &b.d[k], 8 ) != 0 && !( a.d[k] != a.d[k] && b.d[k] != b.d[k] ) )
            return fmt( "field %s record %zu: %.17g vs %.17g", a.path.c_str(), k, a.d[k], b.d[k] );
      for ( size_t k = 0; k < a.s.size(); ++k )
         if ( a.s[k] != b.s[k] )
            return fmt( "field %s record %zu: string of %zu bytes '%.40s' vs %zu bytes '%.40s'",
                        a.path.c_str(), k, a.s[k].size(), a.s[k].c_str(), b.s[k].size(),
                        b.s[k].c_str() );
      return "";
   }

   std::string diff( const N &a, const N &b, bool binary, const std::string &path )
   {
      auto bad = [&]( const std::string &what ) { return path + ": " + what; };
      if ( a.type != b.type )
         return bad( std::string( "type " ) + typeName( a.type ) + " vs " + typeName( b.type ) );
      auto num = [&]( const char *n, int64_t x, int64_t y ) {
         return x == y ? std::string()
                       : bad( fmt( "%s %lld vs %lld", n, static_cast<long long>( x ),
                                   static_cast<long long>( y ) ) );
      };
      auto flt = [&]( const char *n, double x, double y ) {
         return sameDouble( x, y ) ? std::string() : bad( fmt( "%s %.17g vs %.17g", n, x, y ) );
      };
      std::string r;
      switch ( a.type )
      {
         case T::Integer:
         case T::Scaled:
            if ( !( r = num( "value", a.value, b.value ) ).empty() ||
                 !( r = num( "minimum", a.min, b.min ) ).empty() ||
                 !( r = num( "maximum", a.max, b.max ) ).empty() )
               return r;
            if ( a.type == T::Scaled && ( !( r = flt( "scale", a.scale, b.scale ) ).empty() ||
                                          !( r = flt( "offset", a.offset, b.offset ) ).empty() ) )
               return r;
            return "";
         case T::Float:
            if ( a.single != b.single )
               return bad( "precision" );
            if ( !( r = flt( "value", a.fvalue, b.fvalue ) ).empty() ||
                 !( r = flt( "minimum", a.fmin, b.fmin ) ).empty() ||
                 !( r = flt( "maximum", a.fmax, b.fmax ) ).empty() )
               return r;
            return "";
         case T::String:
            if ( a.s != b.s )
               return bad( fmt( "string of %zu bytes '%.60s' vs %zu bytes '%.60s'", a.s.size(),
                                a.s.c_str(), b.s.size(), b.s.c_str() ) );
            return "";
         case T::Blob:
            if ( a.bytes.size() != b.bytes.size() )
               return bad( fmt( "blob of %zu vs %zu bytes", a.bytes.size(), b.bytes.size() ) );
            if ( binary )
               for ( size_t i = 0; i < a.bytes.size(); ++i )
                  if ( a.bytes[i] != b.bytes[i] )
                     return bad( fmt( "blob byte %zu: %02x vs %02x", i, a.bytes[i], b.bytes[i] ) );
            return "";
         case T::Vector:
            if ( a.hetero != b.hetero )
               return bad( "allowHeterogeneousChildren" );
            break;
         case T::CV:
            if ( !( r = num( "recordCount", a.records, b.records ) ).empty() )
               return r;
            break;
         case T::Structure:
            break;
      }
      if ( a.kids.size() != b.kids.size() )
         return bad( fmt( "%zu vs %zu children", a.kids.size(), b.kids.size() ) );
      for ( size_t i = 0; i < a.kids.size(); ++i )
      {
         if ( a.type == T::Structure && a.kids[i].name != b.kids[i].name )
            return bad( fmt( "child %zu named '%s' vs '%s'", i, a.kids[i].name.c_str(),
                             b.kids[i].name.c_str() ) );
         const std::string nm = a.type == T::Structure ? a.kids[i].name : std::to_string( i );
         r = diff( a.kids[i], b.kids[i], binary, path + "/" + nm );
         if ( !r.empty() )
            return r;
      }
      if ( a.type == T::CV && binary )
      {
         if ( a.cols.size() != b.cols.size() && a.records != 0 )
            return bad( fmt( "%zu vs %zu fields", a.cols.size(), b.cols.size() ) );
         for ( size_t i = 0; a.records != 0 && i < a.cols.size(); ++i )
         {
            r = diffCol( a.cols[i], b.cols[i] );
            if ( !r.empty() )
               return bad( r );
         }
      }
      return "";
   }

   e57::Node create( const e57::ImageFile &imf, const N &n )
   {
      switch ( n.type )
      {
         case T::Structure:
         {
            e57::StructureNode s( imf );
            for ( auto &k : n.kids )
               s.set( k.name, create( imf, k ) );
            return s;
         }
         case T::Vector:
         {
            e57::VectorNode v( imf, n.hetero );
            for ( auto &k : n.kids )
               v.append( create( imf, k ) );
            return v;
         }
         case T::CV:
         {
            e57::Node proto = create( imf, n.kids[0] );
            e57::VectorNode codecs( create( imf, n.kids[1] ) );
            return e57::CompressedVectorNode( imf, proto, codecs );
         }
         case T::Integer:
            return e57::IntegerNode( imf, n.value, n.min, n.max );
         case T::Scaled:
            return e57::ScaledIntegerNode( imf, n.value, n.min, n.max, n.scale, n.offset );
         case T::Float:
            return e57::FloatNode( imf, n.fvalue, n.single ? e57::PrecisionSingle : e57::PrecisionDouble,
                                   n.fmin, n.fmax );
         case T::String:
            return e57::StringNode( imf, n.s );
         case T::Blob:
            return e57::BlobNode( imf, static_cast<int64_t>( n.bytes.size() ) );
      }
      throw Failure{ "model" };
   }

   void writeRecords( e57::CompressedVectorNode cvn, const e57::ImageFile &imf, const N &n, size_t block )
   {
      const size_t total = static_cast<size_t>( n.records );
      if ( total == 0 )
         return;
      if ( block == 0 || block > total )
         block = total;
      std::vector<std::unique_ptr<Buf>> bufs;
      std::vector<e57::SourceDestBuffer> sb;
      for ( auto &c : n.cols )
      {
         auto rep = c.type == T::String ? e57::UString
                    : c.type == T::Float ? ( c.single ? e57::Real32 : e57::Real64 )
                                         : e57::Int64;
         bufs.emplace_back( new Buf( rep, block ) );
         sb.push_back( bufs.back()->sdb( imf, c.path, false, false ) );
      }
      e57::CompressedVectorWriter w = cvn.writer( sb );
      for ( size_t at = 0; at < total; at += block )
      {
         const size_t k = std::min( block, total - at );
         for ( size_t f = 0; f < n.cols.size(); ++f )
            for ( size_t i = 0; i < k; ++i )
            {
               auto &c = n.cols[f];
               if ( c.type == T::String )
                  bufs[f]->setStr( i, c.s[at + i] );
               else if ( c.type == T::Float )
                  bufs[f]->setReal( i, c.d[at + i] );
               else
                  bufs[f]->setInt( i, c.i[at + i] );
            }
         w.write( k );
      }
      w.close();
   }

   void writeBinary( const e57::Node &node, const e57::ImageFile &imf, const N &n, size_t block )
   {
      switch ( n.type )
      {
         case T::Structure:
            for ( auto &k : n.kids )
               writeBinary( e57::StructureNode( node ).get( k.name ), imf, k, block );
            break;
         case T::Vector:
            for ( size_t i = 0; i < n.kids.size(); ++i )
               writeBinary( e57::VectorNode( node ).get( static_cast<int64_t>( i ) ), imf, n.kids[i],
                            block );
            break;
         case T::CV:
            writeRecords( e57::CompressedVectorNode( node ), imf, n, block );
            break;
         case T::Blob:
            if ( !n.bytes.empty() )
            {
               auto copy = n.bytes;
               e57::BlobNode( node ).write( copy.data(), 0, copy.size() );
            }
            break;
         default:
            break;
      }
   }

   void writeDoc( e57::ImageFile &imf, const N &root, size_t block )
   {
      e57::StructureNode r = imf.root();
      for ( auto &k : root.kids )
         r.set( k.name, create( imf, k ) );
      for ( auto &k : root.kids )
         writeBinary( r.get( k.name ), imf, k, block );
   }

   std::vector<Col> readRecords( e57::CompressedVectorNode cvn, const N &proto, size_t block )
   {
      const size_t total = static_cast<size_t>( cvn.childCount() );
      std::vector<std::pair<std::string, const N *>> lv;
      leaves( proto, "", lv );
      std::vector<Col> cols;
      e57::ImageFile imf = cvn.destImageFile();
      if ( block == 0 )
         block = total ? total : 1;
      std::vector<std::unique_ptr<Buf>> bufs;
      std::vector<e57::SourceDestBuffer> sb;
      for ( auto &l : lv )
      {
         Col c;
         c.path = l.first;
         c.type = l.second->type;
         c.single = l.second->single;
         cols.push_back( c );
         auto rep = c.type == T::String ? e57::UString
                    : c.type == T::Float ? ( c.single ? e57::Real32 : e57::Real64 )
                                         : e57::Int64;
         bufs.emplace_back( new Buf( rep, block ) );
         sb.push_back( bufs.back()->sdb( imf, c.path, false, false ) );
      }
      e57::CompressedVectorReader rd = cvn.reader( sb );
      size_t got = 0;
      for ( ;; )
      {
         const unsigned k = rd.read();
         CHECK( k <= block, "read() returned %u records for a capacity of %zu", k, block );
         if ( k == 0 )
            break;
         got += k;
         CHECK( got <= total, "read() delivered more than the %zu records", total );
         CHECK( k == block || got == total, "read() returned %u of %zu before the end", k, block );
         for ( size_t f = 0; f < cols.size(); ++f )
            for ( size_t i = 0; i < k; ++i )
            {
               if ( cols[f].type == T::String )
                  cols[f].s.push_back( bufs[f]->strs[i] );
               else if ( cols[f].type == T::Float )
                  cols[f].d.push_back( bufs[f]->getReal( i ) );
               else
                  cols[f].i.push_back( bufs[f]->getInt( i ) );
            }
      }
      CHECK( got == total, "read %zu of %zu records", got, total );
      rd.close();
      return cols;
   }

   N observe( const e57::Node &node, bool binary, size_t block )
   {
      N n;
      n.name = node.elementName();
      switch ( node.type() )
      {
         case e57::TypeStructure:
         {
            n.type = T::Structure;
            e57::StructureNode s( node );
            for ( int64_t i = 0; i < s.childCount(); ++i )
               n.kids.push_back( observe( s.get( i ), binary, block ) );
            break;
         }
         case e57::TypeVector:
         {
            n.type = T::Vector;
            e57::VectorNode v( node );
            n.hetero = v.allowHeteroChildren();
            for ( int64_t i = 0; i < v.childCount(); ++i )
               n.kids.push_back( observe( v.get( i ), binary, block ) );
            break;
         }
         case e57::TypeCompressedVector:
         {
            n.type = T::CV;
            e57::CompressedVectorNode c( node );
            n.records = c.childCount();
            n.kids.push_back( observe( c.prototype(), binary, block ) );
            n.kids.push_back( observe( c.codecs(), binary, block ) );
            if ( binary && n.records > 0 )
               n.cols = readRecords( c, n.kids[0], block );
            break;
         }
         case e57::TypeInteger:
         {
            n.type = T::Integer;
            e57::IntegerNode i( node );
            n.value = i.value();
            n.min = i.minimum();
            n.max = i.maximum();
            break;
         }
         case e57::TypeScaledInteger:
         {
            n.type = T::Scaled;
            e57::ScaledIntegerNode i( node );
            n.value = i.rawValue();
            n.min = i.minimum();
            n.max = i.maximum();
            n.scale = i.scale();
            n.offset = i.offset();
            break;
         }
         case e57::TypeFloat:
         {
            n.type = T::Float;
            e57::FloatNode f( node );
            n.fvalue = f.value();
            n.single = f.precision() == e57::PrecisionSingle;
            n.fmin = f.minimum();
            n.fmax = f.maximum();
            break;
         }
         case e57::TypeString:
            n.type = T::String;
            n.s = e57::StringNode( node ).value();
            break;
         case e57::TypeBlob:
         {
            n.type = T::Blob;
            e57::BlobNode b( node );
            const int64_t size = b.byteCount();
            CHECK( size >= 0 && size < ( 1 << 28 ), "blob size %lld", static_cast<long long>( size ) );
            n.bytes.resize( static_cast<size_t>( size ) );
            if ( binary && size > 0 )
               b.read( n.bytes.data(), 0, n.bytes.size() );
            break;
         }
         default:
            fail( "node of unknown type" );
      }
      return n;
   }

   N observeFile( e57::ImageFile &imf, bool binary, size_t block )
   {
      return observe( imf.root(), binary, block );
   }

   std::string show( const N &n, int depth )
   {
      std::ostringstream o;
      o << std::string( depth * 2, ' ' ) << n.name << ":" << typeName( n.type );
      switch ( n.type )
      {
         case T::Integer:
         case T::Scaled:
            o << " " << n.value << " [" << n.min << "," << n.max << "]";
            break;
         case T::Float:
            o << " " << n.fvalue;
            break;
         case T::String:
            o << " '" << n.s << "'";
            break;
         case T::Blob:
            o << " " << n.bytes.size();
            break;
         case T::CV:
            o << " " << n.records << " records";
            break;
         default:
            break;
      }
      o << "\n";
      for ( auto &k : n.kids )
         o << show( k, depth + 1 );
      return o.str();
   }

   std::vector<char> slurp( const std::string &path )
   {
      std::ifstream f( path, std::ios::binary | std::ios::ate );
      if ( !f )
         return {};
      std::vector<char> b( static_cast<size_t>( f.tellg() ) );
      f.seekg( 0 );
      f.read( b.data(), static_cast<std::streamsize>( b.size() ) );
      return b;
   }
   void spit( const std::string &path, const std::vector<char> &b )
   {
      std::ofstream f( path, std::ios::binary | std::ios::trunc );
      f.write( b.data(), static_cast<std::streamsize>( b.size() ) );
   }
   bool exists( const std::string &path )
   {
      struct stat st;
      return stat( path.c_str(), &st ) == 0;
   }

   std::vector<uint8_t> pattern( size_t n, unsigned seed )
   {
      std::vector<uint8_t> b( n );
      uint32_t x = seed * 2654435761u + 12345;
      for ( auto &c : b )
      {
         x = x * 1664525u + 1013904223u;
         c = static_cast<uint8_t>( x >> 24 );
      }
      return b;
   }

   // ---- Buf ----
   const e57::MemoryRepresentation allReps[11] = { e57::Int8,  e57::UInt8, e57::Int16,  e57::UInt16,
                                                   e57::Int32, e57::UInt32, e57::Int64, e57::Bool,
                                                   e57::Real32, e57::Real64, e57::UString };
   const char *repName( e57::MemoryRepresentation r )
   {
      static const char *n[] = { "?",     "Int8",  "UInt8", "Int16",  "UInt16", "Int32",
                                 "UInt32", "Int64", "Bool",  "Real32", "Real64", "UString" };
      return n[r];
   }
   size_t repWidth( e57::MemoryRepresentation r )
   {
      static const size_t w[] = { 0, 1, 1, 2, 2, 4, 4, 8, 1, 4, 8, 0 };
      return w[r];
   }

   static constexpr unsigned char Guard = 0xC3, Poison = 0x5A;

   Buf::Buf( e57::MemoryRepresentation r, size_t cap, size_t st ) : rep( r ), capacity( cap ), stride( st )
   {
      width = repWidth( rep );
      if ( rep == e57::UString )
      {
         strs.assign( cap, "\x01poison" );
         stride = sizeof( std::string );
         return;
      }
      if ( stride == 0 )
         stride = width;
      mem.assign( 64 + cap * stride, Guard );
      poison();
   }
   void Buf::poison()
   {
      if ( rep == e57::UString )
      {
         strs.assign( capacity, "\x01poison" );
         return;
      }
      for ( size_t i = 0; i < capacity; ++i )
         memset( at( i ), rep == e57::Bool ? 0 : Poison, width );
   }
   bool Buf::elementPoisoned( size_t i ) const
   {
      if ( rep == e57::UString )
         return strs[i] == "\x01poison";
      for ( size_t k = 0; k < width; ++k )
         if ( at( i )[k] != ( rep == e57::Bool ? 0 : Poison ) )
            return false;
      return true;
   }
   void Buf::checkGuards( size_t used ) const
   {
      if ( rep == e57::UString )
      {
         for ( size_t i = used; i < capacity; ++i )
            CHECK( elementPoisoned( i ), "string element %zu written beyond the %zu delivered", i, used );
         CHECK( strs.size() == capacity, "size of the string vector changed" );
         return;
      }
      for ( size_t k = 0; k < mem.size(); ++k )
      {
         if ( k >= 32 && k < 32 + capacity * stride )
         {
            const size_t i = ( k - 32 ) / stride;
            if ( ( k - 32 ) % stride < width )
            {
               if ( i >= used )
                  CHECK( elementPoisoned( i ), "element %zu written beyond the %zu delivered", i, used );
               continue;
            }
         }
         CHECK( mem[k] == Guard, "byte %zd outside the elements of the buffer overwritten",
                static_cast<ssize_t>( k ) - 32 );
      }
   }
   void Buf::setInt( size_t i, int64_t v )
   {
      unsigned char *p = at( i );
      switch ( rep )
      {
         case e57::Bool:
         {
            bool b = v != 0;
            memcpy( p, &b, 1 );
            break;
         }
         case e57::Real32:
         {
            float f = static_cast<float>( v );
            memcpy( p, &f, 4 );
            break;
         }
         case e57::Real64:
         {
            double d = static_cast<double>( v );
            memcpy( p, &d, 8 );
            break;
         }
         default:
            memcpy( p, &v, width ); // little endian
      }
   }
   void Buf::setReal( size_t i, double v )
   {
      if ( rep == e57::Real32 )
      {
         float f = static_cast<float>( v );
         memcpy( at( i ), &f, 4 );
      }
      else if ( rep == e57::Real64 )
         memcpy( at( i ), &v, 8 );
      else
         setInt( i, static_cast<int64_t>( v ) );
   }
   int64_t Buf::getInt( size_t i ) const
   {
      const unsigned char *p = at( i );
      switch ( rep )
      {
         case e57::Int8:
            return *reinterpret_cast<const int8_t *>( p );
         case e57::UInt8:
            return *p;
         case e57::Int16:
         {
            int16_t x;
            memcpy( &x, p, 2 );
            return x;
         }
         case e57::UInt16:
         {
            uint16_t x;
            memcpy( &x, p, 2 );
            return x;
         }
         case e57::Int32:
         {
            int32_t x;
            memcpy( &x, p, 4 );
            return x;
         }
         case e57::UInt32:
         {
            uint32_t x;
            memcpy( &x, p, 4 );
            return x;
         }
         case e57::Int64:
         {
            int64_t x;
            memcpy( &x, p, 8 );
            return x;
         }
         case e57::Bool:
            return *p;
         default:
            return static_cast<int64_t>( getReal( i ) );
      }
   }
   double Buf::getReal( size_t i ) const
   {
      const unsigned char *p = at( i );
      if ( rep == e57::Real32 )
      {
         float f;
         memcpy( &f, p, 4 );
         return f;
      }
      if ( rep == e57::Real64 )
      {
         double d;
         memcpy( &d, p, 8 );
         return d;
      }
      return static_cast<double>( getInt( i ) );
   }
   e57::SourceDestBuffer Buf::sdb( const e57::ImageFile &imf, const std::string &path, bool conv, bool scal )
   {
      unsigned char *p = rep == e57::UString ? nullptr : at( 0 );
      switch ( rep )
      {
         case e57::Int8:
            return { imf, path, reinterpret_cast<int8_t *>( p ), capacity, conv, scal, stride };
         case e57::UInt8:
            return { imf, path, reinterpret_cast<uint8_t *>( p ), capacity, conv, scal, stride };
         case e57::Int16:
            return { imf, path, reinterpret_cast<int16_t *>( p ), capacity, conv, scal, stride };
         case e57::UInt16:
            return { imf, path, reinterpret_cast<uint16_t *>( p ), capacity, conv, scal, stride };
         case e57::Int32:
            return { imf, path, reinterpret_cast<int32_t *>( p ), capacity, conv, scal, stride };
         case e57::UInt32:
            return { imf, path, reinterpret_cast<uint32_t *>( p ), capacity, conv, scal, stride };
         case e57::Int64:
            return { imf, path, reinterpret_cast<int64_t *>( p ), capacity, conv, scal, stride };
         case e57::Bool:
            return { imf, path, reinterpret_cast<bool *>( p ), capacity, conv, scal, stride };
         case e57::Real32:
            return { imf, path, reinterpret_cast<float *>( p ), capacity, conv, scal, stride };
         case e57::Real64:
            return { imf, path, reinterpret_cast<double *>( p ), capacity, conv, scal, stride };
         default:
            return { imf, path, &strs };
      }
   }
}
