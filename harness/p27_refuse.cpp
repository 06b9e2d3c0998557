// P27: a file that breaks a rule of the format is refused.
//
// Files are made by the independent writer and then broken in exactly one rule, in every place where the
// rule applies. The checksums are valid, so nothing but the rule itself can be the reason of a refusal.
// Each broken file has a sound twin which must be accepted.
#include <cfloat>
#include <climits>
#include <fstream>

#include <xercesc/util/PlatformUtils.hpp>

#include "refw57.hpp"
#include "trees.hpp"
#include "vh.hpp"

using namespace vh;

namespace
{
   using Bytes = std::vector<char>;

   // 0 or the error code
   int tryOpen( const Bytes &file, int policy = e57::ChecksumAll, const std::function<void( e57::ImageFile & )> &use = {} )
   {
      try
      {
         e57::ImageFile f( file.data(), file.size(), policy );
         if ( use )
            use( f );
         return 0;
      }
      catch ( e57::E57Exception &ex )
      {
         return ex.errorCode();
      }
   }
   void save( const std::string &path, const Bytes &file )
   {
      std::ofstream o( path, std::ios::binary | std::ios::trunc );
      o.write( file.data(), static_cast<std::streamsize>( file.size() ) );
   }
   int tryOpenFile( const std::string &path, const Bytes &file, int policy )
   {
      save( path, file );
      try
      {
         e57::ImageFile f( path, "r", policy );
         return 0;
      }
      catch ( e57::E57Exception &ex )
      {
         return ex.errorCode();
      }
   }

   // ---- XML ----
   std::string escaped( const std::string &s )
   {
      std::string o;
      for ( char c : s )
         switch ( c )
         {
            case '&': o += "&amp;"; break;
            case '<': o += "&lt;"; break;
            case '>': o += "&gt;"; break;
            case '"': o += "&quot;"; break;
            default: o += c;
         }
      return o;
   }
   std::string text( const ref::Xml &x )
   {
      std::string o = "<" + x.name;
      for ( auto &a : x.attrs )
         o += " " + a.first + "=\"" + escaped( a.second ) + "\"";
      o += ">" + escaped( x.text );
      for ( auto &k : x.kids )
         o += text( k );
      return o + "</" + x.name + ">";
   }
   std::string document( const ref::Xml &root )
   {
      return "<?xml version=\"1.0\" encoding=\"UTF-8\"?>" + text( root );
   }
   void setAttr( ref::Xml &x, const std::string &name, const std::string &value )
   {
      for ( auto &a : x.attrs )
         if ( a.first == name )
         {
            a.second = value;
            return;
         }
      x.attrs.emplace_back( name, value );
   }
   void dropAttr( ref::Xml &x, const std::string &name )
   {
      for ( size_t i = 0; i < x.attrs.size(); ++i )
         if ( x.attrs[i].first == name )
         {
            x.attrs.erase( x.attrs.begin() + static_cast<long>( i ) );
            return;
         }
   }
   ref::Xml element( const std::string &name, const std::string &type, const std::string &t = "" )
   {
      ref::Xml x;
      x.name = name;
      x.attrs = { { "type", type } };
      x.text = t;
      return x;
   }
   // Where the elements are, parents first
   struct Place
   {
      std::vector<size_t> way;
      std::string type, parentType;
      std::string name;
   };
   void places( const ref::Xml &x, std::vector<size_t> way, const std::string &parentType, std::vector<Place> &out )
   {
      auto t = x.attr( "type" );
      out.push_back( { way, t ? *t : "", parentType, x.name } );
      for ( size_t i = 0; i < x.kids.size(); ++i )
      {
         auto w = way;
         w.push_back( i );
         places( x.kids[i], w, t ? *t : "", out );
      }
   }
   ref::Xml &at( ref::Xml &root, const std::vector<size_t> &way, size_t up = 0 )
   {
      ref::Xml *x = &root;
      for ( size_t i = 0; i + up < way.size(); ++i )
         x = &x->kids[way[i]];
      return *x;
   }

   const std::vector<std::string> badIntegers = { "x",  "1x",  "x1", "1.5", "1.0", "1e3", "0x10", "1 2", "--1", "+-1", "-",  "+", "1,000", "9223372036854775808",
                                                  "-9223372036854775809", "18446744073709551616", "1_0", "1u", "1L", "INF", "NaN", "\xd9\xa3", "1\xc2\xa0" };
   const std::vector<std::string> badReals = { "x", "1x", "x1", "1,5", "1.5.2", "1e", "1e+", "e5", "--1", "1 2", "+", "-", ".", "1d3", "1.5f", "\xd9\xa3", "1\xc2\xa0", "one" };

   struct Break
   {
      std::string what;
      std::function<void( ref::Xml &root, ref::Xml &x, ref::Xml *parent )> doIt;
      std::function<std::string( std::string )> onText; // applied to the finished text
   };
   // All ways to break a rule at this element
   std::vector<Break> breaks( const Place &p )
   {
      std::vector<Break> out;
      auto add = [&]( const std::string &what, std::function<void( ref::Xml &, ref::Xml &, ref::Xml * )> f ) { out.push_back( { what, f, {} } ); };
      using X = ref::Xml;
      const bool root = p.way.empty();
      const std::string type = p.type;
      auto attr = [&]( const std::string &name, const std::string &value ) {
         add( name + "=" + value, [=]( X &, X &x, X * ) { setAttr( x, name, value ); } );
      };
      auto content = [&]( const std::string &value ) { add( "text " + value, [=]( X &, X &x, X * ) { x.text = value; } ); };
      auto inside = [&]( const std::string &what, const X &kid ) { add( "contains " + what, [=]( X &, X &x, X * ) { x.kids.push_back( kid ); } ); };

      // what every element has
      add( "no type", []( X &, X &x, X * ) { dropAttr( x, "type" ); } );
      for ( auto t : { "", "integer", "Int", " Integer", "Integer ", "Real", "structure", "Struct", "Object" } )
         attr( "type", t );
      add( "attribute twice", []( X &, X &x, X * ) { x.attrs.push_back( x.attrs[0] ); } );
      add( "unknown prefix", []( X &, X &x, X * ) { x.name = "zz:" + x.name; } );
      add( "two colons", []( X &, X &x, X * ) { x.name = "q:" + x.name + ":b"; } );
      add( "name begins with digit", []( X &, X &x, X * ) { x.name = "1" + x.name; } );
      add( "name with space", []( X &, X &x, X * ) { x.name += " b"; } );
      if ( root )
      {
         for ( auto t : { "Integer", "ScaledInteger", "Float", "String", "Vector" } )
            add( fmt( "root is %s", t ), [=]( X &, X &x, X * ) {
               x.kids.clear();
               setAttr( x, "type", t );
            } );
         add( "no default namespace", []( X &, X &x, X * ) { dropAttr( x, "xmlns" ); } );
         out.push_back( { "two roots", {}, []( std::string s ) { return s + "<e57Root type=\"Structure\" xmlns=\"http://www.astm.org/COMMIT/E57/2010-e57-v1.0\"/>"; } } );
         out.push_back( { "text behind", {}, []( std::string s ) { return s + "x"; } } );
         out.push_back( { "text before", {}, []( std::string s ) { return "x" + s; } } );
         out.push_back( { "dtd", {}, []( std::string s ) { return s.insert( s.find( "?>" ) + 2, "<!DOCTYPE e57Root [<!ENTITY a \"b\">]>" ); } } );
         out.push_back( { "nothing", {}, []( std::string ) { return std::string( "    " ); } } );
         out.push_back( { "not closed", {}, []( std::string s ) { return s.substr( 0, s.rfind( "</" ) ); } } );
      }
      else
      {
         if ( p.parentType == "Structure" )
         {
            add( "name twice", []( X &, X &x, X *parent ) {
               const X copy = x;
               parent->kids.push_back( copy );
            } );
            add( "name twice, other type", []( X &, X &x, X *parent ) {
               const std::string name = x.name;
               parent->kids.push_back( element( name, *x.attr( "type" ) == "Integer" ? "String" : "Integer", "1" ) );
            } );
         }
      }
      if ( type == "Integer" || type == "ScaledInteger" )
      {
         for ( auto &b : badIntegers )
         {
            attr( "minimum", b );
            attr( "maximum", b );
            content( b );
         }
         attr( "minimum", "" );
         attr( "maximum", "" );
      }
      if ( type == "ScaledInteger" )
         for ( auto &b : badReals )
         {
            attr( "scale", b );
            attr( "offset", b );
         }
      if ( type == "Float" )
      {
         for ( auto &b : badReals )
         {
            attr( "minimum", b );
            attr( "maximum", b );
            content( b );
         }
         for ( auto b : { "", "Single", "DOUBLE", "half", "32", " single", "singles" } )
            attr( "precision", b );
      }
      if ( type == "Integer" || type == "ScaledInteger" || type == "Float" || type == "String" || type == "Blob" )
         for ( auto &k : { element( "k", "Integer", "1" ), element( "k", "String", "1" ), element( "k", "Structure" ), element( "k", "Vector" ) } )
            inside( *k.attr( "type" ), k );
      if ( type == "Structure" || type == "Vector" || type == "CompressedVector" || type == "Blob" )
         for ( auto t : { "x", "1", " x ", "\n.\n" } )
            content( t );
      if ( type == "Vector" )
         for ( auto b : { "", "2", "-1", "true", "false", "x", "1.0", "10" } )
            attr( "allowHeterogeneousChildren", b );
      if ( type == "Blob" || type == "CompressedVector" )
      {
         const std::string len = type == "Blob" ? "length" : "recordCount";
         for ( auto &n : { std::string( "fileOffset" ), len } )
         {
            add( "no " + n, [=]( X &, X &x, X * ) { dropAttr( x, n ); } );
            for ( auto &b : badIntegers )
               attr( n, b );
            attr( n, "" );
            // neither sizes nor positions are negative
            attr( n, "-1" );
            attr( n, "-9223372036854775808" );
         }
      }
      if ( type == "CompressedVector" )
      {
         add( "no prototype", []( X &, X &x, X * ) {
            for ( size_t i = 0; i < x.kids.size(); ++i )
               if ( x.kids[i].name == "prototype" )
               {
                  x.kids.erase( x.kids.begin() + static_cast<long>( i ) );
                  return;
               }
         } );
         add( "empty", []( X &, X &x, X * ) { x.kids.clear(); } );
         for ( auto n : { "prototype", "codecs" } )
         {
            add( fmt( "two %s", n ), [=]( X &, X &x, X * ) {
               for ( size_t i = 0; i < x.kids.size(); ++i )
                  if ( x.kids[i].name == n )
                  {
                     const X copy = x.kids[i];
                     x.kids.push_back( copy );
                     return;
                  }
               // without codecs: two of them
               X c = element( n, "Vector" );
               setAttr( c, "allowHeterogeneousChildren", "1" );
               x.kids.push_back( c );
               x.kids.push_back( c );
            } );
            add( fmt( "%s named otherwise", n ), [=]( X &, X &x, X * ) {
               X c = element( std::string( n ) + "s", n == std::string( "prototype" ) ? "Structure" : "Vector" );
               x.kids.push_back( c );
            } );
         }
         inside( "other", element( "k", "Integer", "1" ) );
         auto codecs = [&]( const std::string &what, const X &c ) {
            add( "codecs " + what, [=]( X &, X &x, X * ) {
               for ( auto &k : x.kids )
                  if ( k.name == "codecs" )
                  {
                     k = c;
                     return;
                  }
               x.kids.push_back( c );
            } );
         };
         for ( auto t : { "Integer", "String", "Structure", "Float", "ScaledInteger" } )
            codecs( t, element( "codecs", t ) );
         codecs( "homogeneous", element( "codecs", "Vector" ) );
         auto proto = [&]( const std::string &what, const X &kid ) {
            add( "prototype contains " + what, [=]( X &, X &x, X * ) {
               for ( auto &k : x.kids )
                  if ( k.name == "prototype" )
                     k.kids.push_back( kid );
            } );
         };
         X blob = element( "zblob", "Blob" );
         setAttr( blob, "fileOffset", "48" );
         setAttr( blob, "length", "4" );
         X cv = element( "zcv", "CompressedVector" );
         setAttr( cv, "fileOffset", "48" );
         setAttr( cv, "recordCount", "0" );
         cv.kids = { element( "prototype", "Structure" ) };
         cv.kids[0].kids = { element( "i", "Integer" ) };
         X in = element( "zs", "Structure" );
         proto( "blob", blob );
         proto( "vector of records", cv );
         in.kids = { blob };
         proto( "blob below", in );
         in.kids = { cv };
         proto( "vector of records below", in );
      }
      return out;
   }
   // What is wrong with whole vectors
   bool homogeneous( const ref::Xml &x )
   {
      auto t = x.attr( "type" );
      auto h = x.attr( "allowHeterogeneousChildren" );
      return t && *t == "Vector" && ( !h || *h == "0" );
   }

   struct Doc
   {
      ref::Xml xml;
      std::vector<uint8_t> binary;
   };
   Doc make( const m::N &root )
   {
      refw::Layout l;
      l.cut = refw::onePacket;
      const auto d = ref::decode( refw::write( root, l ) );
      Doc out;
      out.xml = ref::parseXml( d.xml );
      out.binary.assign( d.logical.begin() + 48, d.logical.begin() + static_cast<long>( d.xmlStart ) );
      return out;
   }

   void breakAll( Run &r, const std::string &name, const Doc &d )
   {
      std::vector<Place> ps;
      places( d.xml, {}, "", ps );
      for ( size_t k = 0; k < ps.size(); ++k )
         r.test( [&] { return fmt( "xml %s element %zu", name.c_str(), k ); }, [&] {
            const int sound = tryOpen( refw::withXml( document( d.xml ), d.binary ) );
            CHECK( sound == 0, "the sound file is refused with error %d: %s", sound, document( d.xml ).c_str() );
            for ( auto &b : breaks( ps[k] ) )
            {
               ref::Xml root = d.xml;
               if ( b.doIt )
                  b.doIt( root, at( root, ps[k].way ), ps[k].way.empty() ? nullptr : &at( root, ps[k].way, 1 ) );
               std::string s = document( root );
               if ( b.onText )
                  s = b.onText( s );
               const int rc = tryOpen( refw::withXml( s, d.binary ) );
               CHECK( rc != 0, "accepted (%s): %s", b.what.c_str(), s.c_str() );
               r.transitions();
               r.outcome( fmt( "%s %s in %s: error %d", ps[k].type.c_str(), b.what.c_str(), ps[k].parentType.c_str(), rc ) );
            }
            // a child that does not fit into a homogeneous vector
            if ( homogeneous( at( const_cast<ref::Xml &>( d.xml ), ps[k].way ) ) )
            {
               auto kinds = std::vector<ref::Xml>{ element( "vectorChild", "Integer", "1" ), element( "vectorChild", "Float", "1" ), element( "vectorChild", "String", "1" ),
                                                   element( "vectorChild", "Structure" ), element( "vectorChild", "Vector" ), element( "vectorChild", "ScaledInteger", "1" ) };
               for ( auto &a : kinds )
                  for ( auto &b : kinds )
                  {
                     ref::Xml root = d.xml;
                     auto &x = at( root, ps[k].way );
                     x.kids = { a, b };
                     const bool same = *a.attr( "type" ) == *b.attr( "type" );
                     const int rc = tryOpen( refw::withXml( document( root ), d.binary ) );
                     CHECK( ( rc == 0 ) == same, "a homogeneous vector of %s and %s gives error %d", a.attr( "type" )->c_str(), b.attr( "type" )->c_str(), rc );
                     r.transitions();
                     setAttr( x, "allowHeterogeneousChildren", "1" );
                     const int rc2 = tryOpen( refw::withXml( document( root ), d.binary ) );
                     CHECK( ps[k].name == "codecs" || rc2 == 0 || ps[k].parentType == "Vector", "a heterogeneous vector of %s and %s gives error %d", a.attr( "type" )->c_str(),
                            b.attr( "type" )->c_str(), rc2 );
                  }
            }
         } );
   }

   // A terminal in each kind of surrounding
   ref::Xml surrounding( int kind, const ref::Xml &leaf )
   {
      ref::Xml root = element( "e57Root", "Structure" );
      root.attrs.emplace_back( "xmlns", "http://www.astm.org/COMMIT/E57/2010-e57-v1.0" );
      ref::Xml s = element( "s", "Structure" ), v = element( "v", "Vector" ), cv = element( "c", "CompressedVector" ), p = element( "prototype", "Structure" );
      switch ( kind )
      {
         case 0: root.kids = { leaf }; break;
         case 1:
            s.kids = { leaf };
            root.kids = { s };
            break;
         case 2:
            v.kids = { leaf };
            root.kids = { v };
            break;
         default:
            p.kids = { leaf };
            setAttr( cv, "fileOffset", "48" );
            setAttr( cv, "recordCount", "0" );
            cv.kids = { p };
            root.kids = { cv };
      }
      return root;
   }
   e57::Node leafOf( e57::ImageFile &f, int kind )
   {
      auto first = f.root().get( 0 );
      switch ( kind )
      {
         case 0: return first;
         case 1: return e57::StructureNode( first ).get( 0 );
         case 2: return e57::VectorNode( first ).get( 0 );
         default: return e57::StructureNode( e57::CompressedVectorNode( first ).prototype() ).get( 0 );
      }
   }
   void integers( Run &r )
   {
      const std::vector<int64_t> vals = { INT64_MIN, INT64_MIN + 1, -2, -1, 0, 1, 2, INT64_MAX - 1, INT64_MAX };
      for ( int scaled = 0; scaled < 2; ++scaled )
         for ( int kind = 0; kind < 4; ++kind )
            for ( size_t lo = 0; lo <= vals.size(); ++lo )
               for ( size_t hi = 0; hi <= vals.size(); ++hi )
                  r.test( [&] { return fmt( "bounds %s in %d: minimum %zu maximum %zu", scaled ? "scaled" : "integer", kind, lo, hi ); }, [&] {
                     for ( auto v : vals )
                     {
                        auto leaf = element( "x", scaled ? "ScaledInteger" : "Integer", std::to_string( v ) );
                        const int64_t l = lo < vals.size() ? vals[lo] : INT64_MIN, h = hi < vals.size() ? vals[hi] : INT64_MAX;
                        if ( lo < vals.size() )
                           setAttr( leaf, "minimum", std::to_string( l ) );
                        if ( hi < vals.size() )
                           setAttr( leaf, "maximum", std::to_string( h ) );
                        const int rc = tryOpen( refw::withXml( document( surrounding( kind, leaf ) ), std::vector<uint8_t>( 100 ) ), 0, [&]( e57::ImageFile &f ) {
                           auto n = leafOf( f, kind );
                           if ( scaled )
                           {
                              e57::ScaledIntegerNode s( n );
                              CHECK( s.rawValue() == v && s.minimum() == l && s.maximum() == h && s.scale() == 1 && s.offset() == 0, "read %lld in %lld..%lld",
                                     (long long)s.rawValue(), (long long)s.minimum(), (long long)s.maximum() );
                           }
                           else
                           {
                              e57::IntegerNode s( n );
                              CHECK( s.value() == v && s.minimum() == l && s.maximum() == h, "read %lld in %lld..%lld", (long long)s.value(), (long long)s.minimum(),
                                     (long long)s.maximum() );
                           }
                        } );
                        CHECK( ( rc == 0 ) == ( l <= v && v <= h ), "value %lld in %lld..%lld gives error %d", (long long)v, (long long)l, (long long)h, rc );
                        r.transitions();
                        r.outcome( fmt( "%d %d %lld in %lld..%lld: %d", scaled, kind, (long long)v, (long long)l, (long long)h, rc ) );
                     }
                  } );
   }
   void reals( Run &r )
   {
      const std::vector<double> vals = { -DBL_MAX, -FLT_MAX, -1.5, 0, 0.25, 1.5, FLT_MAX, DBL_MAX };
      for ( int prec = 0; prec < 3; ++prec ) // default, double, single
         for ( int kind = 0; kind < 4; ++kind )
            for ( size_t lo = 0; lo <= vals.size(); ++lo )
               for ( size_t hi = 0; hi <= vals.size(); ++hi )
                  r.test( [&] { return fmt( "bounds float %d in %d: minimum %zu maximum %zu", prec, kind, lo, hi ); }, [&] {
                     for ( auto v : vals )
                     {
                        const double big = prec == 2 ? FLT_MAX : DBL_MAX;
                        const double l = lo < vals.size() ? vals[lo] : -big, h = hi < vals.size() ? vals[hi] : big;
                        if ( prec == 2 && ( l < -FLT_MAX || h > FLT_MAX || ( ( v < -FLT_MAX || v > FLT_MAX ) && l <= v && v <= h ) ) )
                           continue; // bounds that a single cannot have
                        auto leaf = element( "x", "Float", fmt( "%.17g", v ) );
                        if ( lo < vals.size() )
                           setAttr( leaf, "minimum", fmt( "%.17g", l ) );
                        if ( hi < vals.size() )
                           setAttr( leaf, "maximum", fmt( "%.17g", h ) );
                        if ( prec )
                           setAttr( leaf, "precision", prec == 1 ? "double" : "single" );
                        const int rc = tryOpen( refw::withXml( document( surrounding( kind, leaf ) ), std::vector<uint8_t>( 100 ) ), 0, [&]( e57::ImageFile &f ) {
                           e57::FloatNode s( leafOf( f, kind ) );
                           CHECK( s.value() == v && s.minimum() == l && s.maximum() == h && s.precision() == ( prec == 2 ? e57::PrecisionSingle : e57::PrecisionDouble ),
                                  "read %g in %g..%g", s.value(), s.minimum(), s.maximum() );
                        } );
                        CHECK( ( rc == 0 ) == ( l <= v && v <= h ), "value %g in %g..%g gives error %d", v, l, h, rc );
                        r.transitions();
                        r.outcome( fmt( "%d %d %g in %g..%g: %d", prec, kind, v, l, h, rc ) );
                     }
                  } );
   }

   // ---- header ----
   void header( Run &r )
   {
      refw::Layout l;
      l.cut = refw::onePacket;
      const auto doc = fld::doc( { fld::Int( -3, 3 ), fld::F64() }, 5 );
      const auto logical = refw::writeLogical( doc, l );
      for ( int mem = 0; mem < 2; ++mem )
         for ( int policy : { 0, 1, 50, 99, 100 } )
         {
            auto open = [&]( const Bytes &f ) { return mem ? tryOpen( f, policy ) : tryOpenFile( r.path( "h.e57" ), f, policy ); };
            const std::string where = fmt( "header, %s, policy %d: ", mem ? "memory" : "file", policy );
            r.test( where + "sound", [&] { CHECK( open( ref::pack( logical ) ) == 0, "refused" ); } );
            for ( size_t b = 0; b < 8; ++b )
               r.test( where + fmt( "signature byte %zu", b ), [&] {
                  for ( int v = 1; v < 256; ++v )
                  {
                     auto c = logical;
                     c[b] = static_cast<uint8_t>( c[b] ^ v );
                     const int rc = open( ref::pack( c ) );
                     CHECK( rc == e57::ErrorBadFileSignature, "%d gives error %d", c[b], rc );
                     r.transitions();
                  }
                  r.outcome( fmt( "signature %zu", b ) );
               } );
            const std::vector<uint32_t> nums = { 1, 2, 3, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000u, 0xfffffffeu, 0xffffffffu };
            for ( auto major : nums )
               r.test( where + fmt( "version %u", major ), [&] {
                  for ( uint32_t minor = 0; minor < 12; ++minor )
                  {
                     auto c = logical;
                     const uint32_t mi = minor == 0 ? 0 : nums[minor - 1];
                     refw::put32( c, 8, major );
                     refw::put32( c, 12, mi );
                     const int rc = open( ref::pack( c ) );
                     if ( major == 1 && mi == 0 )
                        CHECK( rc == 0, "error %d", rc );
                     else
                        CHECK( rc == e57::ErrorUnknownFileVersion, "version %u.%u gives error %d", major, mi, rc );
                     r.transitions();
                     r.outcome( fmt( "version %u.%u %d", major, mi, rc ) );
                  }
               } );
            r.test( where + "length", [&] {
               const uint64_t size = ref::pack( logical ).size();
               std::vector<uint64_t> bad = { 0, 1, 48, 1020, 1024, size - 1024, size - 4, size - 1, size + 1, size + 4, size + 1024, size * 2, size | 1ULL << 32, size | 1ULL << 63, UINT64_MAX };
               for ( auto v : bad )
               {
                  if ( v == size )
                     continue;
                  auto c = logical;
                  refw::put64( c, 16, v );
                  const int rc = open( ref::pack( c ) );
                  CHECK( rc == e57::ErrorBadFileLength, "length %llu instead of %llu gives error %d", (unsigned long long)v, (unsigned long long)size, rc );
                  r.transitions();
               }
               for ( int extra = 1; extra < 4; ++extra )
               {
                  auto c = logical;
                  c.resize( c.size() + static_cast<size_t>( extra ) * 1020 );
                  const int rc = open( ref::pack( c ) );
                  CHECK( rc == e57::ErrorBadFileLength, "%d more pages give error %d", extra, rc );
                  r.transitions();
               }
               for ( size_t pages = 1; pages * 1024 < size; ++pages )
               {
                  auto c = ref::pack( logical );
                  c.resize( pages * 1024 );
                  const int rc = open( c );
                  CHECK( rc != 0, "%zu pages are accepted", pages );
                  r.transitions();
               }
               for ( size_t n = 0; n < 48; ++n )
               {
                  auto c = ref::pack( logical );
                  c.resize( n );
                  const int rc = open( c );
                  CHECK( rc != 0, "%zu bytes are accepted", n );
                  r.transitions();
               }
               r.outcome( "length" );
            } );
            r.test( where + "page size", [&] {
               for ( uint64_t v : { 0ull, 1ull, 256ull, 512ull, 1020ull, 1023ull, 1025ull, 2048ull, 4096ull, 1024ull | 1ull << 32, 1024ull | 1ull << 63, ~0ull } )
               {
                  auto c = logical;
                  refw::put64( c, 40, v );
                  const int rc = open( ref::pack( c ) );
                  CHECK( rc == e57::ErrorBadFileLength, "page size %llu gives error %d", (unsigned long long)v, rc );
                  r.transitions();
               }
               r.outcome( "page size" );
            } );
            r.test( where + "xml", [&] {
               const uint64_t size = ref::pack( logical ).size();
               for ( uint64_t v : { size, size + 4, size * 2, uint64_t( 1 ) << 32, uint64_t( 1 ) << 63, UINT64_MAX } )
               {
                  auto c = logical;
                  refw::put64( c, 24, v );
                  int rc = open( ref::pack( c ) );
                  CHECK( rc != 0, "XML offset %llu is accepted", (unsigned long long)v );
                  c = logical;
                  refw::put64( c, 32, v );
                  rc = open( ref::pack( c ) );
                  CHECK( rc != 0, "XML length %llu is accepted", (unsigned long long)v );
                  r.transitions( 2 );
               }
               // any part of the XML is not the XML
               uint64_t off = 0, len = 0;
               for ( int i = 7; i >= 0; --i )
                  off = off << 8 | logical[24 + static_cast<size_t>( i )], len = len << 8 | logical[32 + static_cast<size_t>( i )];
               while ( logical[( off / 1024 * 1020 + off % 1024 ) + len - 1] != '>' )
                  --len;
               for ( uint64_t n = 0; n < len; ++n )
               {
                  auto c = logical;
                  refw::put64( c, 32, n );
                  const int rc = open( ref::pack( c ) );
                  CHECK( rc != 0, "%llu bytes of the XML are accepted", (unsigned long long)n );
                  r.transitions();
               }
               r.outcome( "xml" );
            } );
         }
   }

   // ---- sections and packets ----
   int readAll( const Bytes &file, const m::N &cv, int policy, size_t block )
   {
      return tryOpen( file, policy, [&]( e57::ImageFile &f ) {
         e57::CompressedVectorNode v( f.root().get( 0 ) );
         std::vector<std::pair<std::string, const m::N *>> lv;
         m::leaves( cv.kids[0], "", lv );
         std::vector<std::unique_ptr<m::Buf>> bufs;
         std::vector<e57::SourceDestBuffer> list;
         for ( auto &l : lv )
         {
            bufs.emplace_back( new m::Buf( l.second->type == m::T::String ? e57::UString : l.second->type == m::T::Float ? e57::Real64 : e57::Int64, block ) );
            list.push_back( bufs.back()->sdb( f, l.first, false, false ) );
         }
         auto reader = v.reader( list );
         while ( reader.read() )
         {
         }
         reader.close();
      } );
   }
   void binary( Run &r )
   {
      const std::vector<std::pair<std::string, std::vector<fld::Field>>> sets = {
         { "integer", { fld::Int( -3, 300 ) } }, { "float", { fld::F64() } }, { "two", { fld::Int( 0, 1 ), fld::F64() } }, { "string", { fld::Str(), fld::Int( 0, 255 ) } } };
      for ( auto &set : sets )
         for ( size_t cutBytes : { size_t( 0 ), size_t( 8 ), size_t( 24 ) } )
         {
            refw::Layout l;
            if ( cutBytes )
               l.cut = [cutBytes]( const std::vector<size_t> &n ) { return refw::fixedCut( n, cutBytes ); };
            else
               l.cut = refw::onePacket;
            const auto doc = fld::doc( set.second, 9 );
            refw::Marks marks;
            const auto logical = refw::writeLogical( doc, l, &marks );
            const auto &cv = doc.kids[0];
            uint64_t sec = 0;
            for ( auto &s : marks.sections )
               if ( s.what.find( "cv" ) != std::string::npos || s.what.find( "CompressedVector" ) != std::string::npos || marks.sections.size() == 1 )
                  sec = s.start;
            const uint64_t size = ref::pack( logical ).size();
            const std::string where = fmt( "binary %s cut %zu: ", set.first.c_str(), cutBytes );
            auto refuse = [&]( const std::vector<uint8_t> &c, const std::string &what ) {
               for ( size_t block : { 1, 4, 100 } )
               {
                  const int rc = readAll( ref::pack( c ), cv, 100, block );
                  CHECK( rc != 0, "%s: everything is read in blocks of %zu", what.c_str(), block );
                  r.transitions();
                  r.outcome( where + what + fmt( " %d", rc ) );
               }
            };
            r.test( where + "sound", [&] {
               for ( size_t block : { 1, 4, 100 } )
                  CHECK( readAll( ref::pack( logical ), cv, 100, block ) == 0, "the sound file is refused" );
            } );
            r.test( where + "section", [&] {
               for ( int v = 0; v < 256; ++v )
                  if ( v != 1 )
                  {
                     auto c = logical;
                     c[sec] = static_cast<uint8_t>( v );
                     refuse( c, fmt( "section id %d", v ) );
                  }
               for ( size_t field : { 8, 16, 24 } )
                  for ( uint64_t v : { size, size + 4, uint64_t( 1 ) << 32, uint64_t( 1 ) << 63, UINT64_MAX - 3 } )
                  {
                     auto c = logical;
                     refw::put64( c, sec + field, v );
                     refuse( c, fmt( "section field %zu = %llu", field, (unsigned long long)v ) );
                  }
               for ( uint64_t v = 1; v < 4; ++v )
               {
                  auto c = logical;
                  refw::put64( c, sec + 8, static_cast<uint64_t>( c[sec + 8] ) + 256 * static_cast<uint64_t>( c[sec + 9] ) + v );
                  refuse( c, fmt( "section length + %llu", (unsigned long long)v ) );
               }
            } );
            for ( size_t k = 0; k < marks.packets.size(); ++k )
            {
               const auto p = marks.packets[k];
               if ( p.type != 1 )
                  continue;
               r.test( where + fmt( "packet %zu", k ), [&] {
                  for ( int v = 3; v < 256; ++v )
                  {
                     auto c = logical;
                     c[p.start] = static_cast<uint8_t>( v );
                     refuse( c, fmt( "packet type %d", v ) );
                  }
                  for ( uint64_t v : { uint64_t( 1 ), uint64_t( 2 ), uint64_t( 3 ), p.length - 1, p.length + 1, p.length + 2, p.length + 3, p.length - 4, p.length + 4, p.length + 8 } )
                  {
                     if ( v == p.length || v == 0 )
                        continue;
                     auto c = logical;
                     refw::put16( c, p.start + 2, v - 1 );
                     refuse( c, fmt( "packet length %llu", (unsigned long long)v ) );
                  }
                  for ( size_t n = 0; n < p.streams.size(); ++n )
                     {
                        auto c = logical;
                        refw::put16( c, p.start + 4, n );
                        refuse( c, fmt( "%zu streams", n ) );
                     }
                  for ( size_t s = 0; s < p.streams.size(); ++s )
                     for ( uint64_t v : { uint64_t( 0xffff ), uint64_t( 0x8000 ), p.streams[s] + uint64_t( 4 ), p.streams[s] + uint64_t( 256 ), p.length } )
                     {
                        if ( v == p.streams[s] )
                           continue;
                        auto c = logical;
                        refw::put16( c, p.start + 6 + 2 * s, v );
                        refuse( c, fmt( "stream %zu of %llu bytes", s, (unsigned long long)v ) );
                     }
               } );
            }
         }
   }
}

void vh::enumerate( Run &r )
{
   xercesc::XMLPlatformUtils::Initialize();
   header( r );
   binary( r );
   integers( r );
   reals( r );
   // Rich document
   {
      auto root = m::structure( "", { m::integer( "a", 7, 0, 9 ), m::blob( "b", m::pattern( 90 ) ), m::vec( "w", true, { m::scaled( "", 3, -5, 5, 0.5, 2 ), m::real( "", 0.1 ) } ),
                                      m::str( "t", "text" ), m::structure( "s", { m::structure( "s", { m::vec( "v", false ), m::real( "f", 1, true ) } ) } ) } );
      breakAll( r, "rich", make( root ) );
      auto d = make( root );
      // a vector of records with everything, also inside other elements
      ref::Xml c = element( "c", "CompressedVector" );
      setAttr( c, "fileOffset", "48" );
      setAttr( c, "recordCount", "0" );
      ref::Xml p = element( "prototype", "Structure" ), k = element( "codecs", "Vector" );
      setAttr( k, "allowHeterogeneousChildren", "1" );
      p.kids = { element( "i", "Integer" ), element( "q", "ScaledInteger" ), element( "f", "Float" ), element( "s", "String" ), element( "t", "Structure" ), element( "u", "Vector" ) };
      p.kids[4].kids = { element( "i", "Integer" ), element( "v", "Vector" ) };
      p.kids[4].kids[1].kids = { element( "vectorChild", "Integer" ) };
      p.kids[5].kids = { element( "vectorChild", "Float" ), element( "vectorChild", "Float" ) };
      c.kids = { p, k };
      for ( int place = 0; place < 3; ++place )
      {
         ref::Xml root2 = d.xml;
         ref::Xml s = element( "z", place == 1 ? "Structure" : "Vector" );
         s.kids = { c };
         if ( place == 0 )
            root2.kids = { c };
         else
            root2.kids = { s };
         breakAll( r, fmt( "records %d", place ), { root2, d.binary } );
      }
   }
   for ( int n = 1; n <= ( r.thorough ? 3 : 2 ); ++n )
      tree::all( n, [&]( const m::N &root, const std::string &id ) { breakAll( r, id, make( root ) ); } );
}
