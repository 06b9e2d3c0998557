// P17: numbers stored as text are read back exactly, in any locale.
//
// Every exponent of double and single precision with an enumerated set of mantissas, and all integers
// around the powers of two and ten, as value, limit, scale and offset; then a smaller set of numbers
// and everything else that is stored as a number for all pairs of locales for writing and reading.
#include <clocale>
#include <locale>

#include <xercesc/util/PlatformUtils.hpp>

#include "model.hpp"
#include "vh.hpp"

using namespace vh;

namespace
{
   // ---- numbers ----
   std::vector<uint64_t> mantissas( int bits, bool pairs )
   {
      const uint64_t all = ( uint64_t( 1 ) << bits ) - 1;
      std::set<uint64_t> out = { 0, all, 0x5555555555555555ull & all, 0xAAAAAAAAAAAAAAAAull & all,
                                 0x3333333333333333ull & all, 0x123456789ABCDEFull & all };
      for ( int k = 0; k < bits; ++k )
      {
         const uint64_t one = uint64_t( 1 ) << k;
         out.insert( { one, all ^ one, one - 1, all ^ ( one - 1 ) } );
         if ( pairs )
            for ( int j = 0; j < k; ++j )
               out.insert( one | ( uint64_t( 1 ) << j ) );
      }
      return { out.begin(), out.end() };
   }
   double makeDouble( bool negative, uint64_t exponent, uint64_t mantissa )
   {
      const uint64_t x = ( uint64_t( negative ) << 63 ) | ( exponent << 52 ) | mantissa;
      double d;
      memcpy( &d, &x, 8 );
      return d;
   }
   float makeFloat( bool negative, uint32_t exponent, uint64_t mantissa )
   {
      const uint32_t x = ( uint32_t( negative ) << 31 ) | ( exponent << 23 ) | static_cast<uint32_t>( mantissa );
      float d;
      memcpy( &d, &x, 4 );
      return d;
   }
   const std::vector<int64_t> &integers()
   {
      static const std::vector<int64_t> list = [] {
         std::set<int64_t> out = { 0, INT64_MIN, INT64_MAX };
         const auto around = [&]( __int128 x ) {
            for ( int d = -3; d <= 3; ++d )
               for ( int sign : { -1, 1 } )
               {
                  const __int128 y = sign * ( x + d );
                  if ( y >= INT64_MIN && y <= INT64_MAX )
                     out.insert( static_cast<int64_t>( y ) );
               }
         };
         for ( int k = 0; k < 64; ++k )
            around( static_cast<__int128>( 1 ) << k );
         __int128 ten = 1;
         for ( int k = 0; k < 20; ++k, ten *= 10 )
            for ( int f = 1; f < 10; ++f )
               around( f * ten );
         return std::vector<int64_t>( out.begin(), out.end() );
      }();
      return list;
   }

   // ---- locales ----
   class Punct : public std::numpunct<char>
   {
   public:
      Punct( char p, char s, const char *g ) : point_( p ), separator_( s ), grouping_( g )
      {
      }

   protected:
      char do_decimal_point() const override
      {
         return point_;
      }
      char do_thousands_sep() const override
      {
         return separator_;
      }
      std::string do_grouping() const override
      {
         return grouping_;
      }
      std::string do_truename() const override
      {
         return "vrai";
      }
      std::string do_falsename() const override
      {
         return "faux";
      }

   private:
      char point_, separator_;
      std::string grouping_;
   };
   const int LOCALES = 6; // C++ locale (3) and C locale (2)
   class Locale
   {
   public:
      explicit Locale( int which ) : old_( std::locale() ), oldC_( setlocale( LC_ALL, nullptr ) )
      {
         const std::locale &c = std::locale::classic();
         const std::locale all[] = { c, std::locale( c, new Punct( ',', '.', "\3" ) ),
                                     std::locale( c, new Punct( '-', '1', "\1\2" ) ) };
         std::locale::global( all[which % 3] );
         if ( which / 3 )
            setlocale( LC_ALL, "fr_FR" ); // has a decimal comma; stays as it was if there is no such locale
         else
            setlocale( LC_ALL, "C" );
      }
      ~Locale()
      {
         std::locale::global( old_ );
         setlocale( LC_ALL, oldC_.c_str() );
      }

   private:
      std::locale old_;
      std::string oldC_;
   };

   // ---- writing and reading ----
   template <typename T> bool same( T a, T b )
   {
      return memcmp( &a, &b, sizeof a ) == 0 || ( a == 0 && b == 0 );
   }
   template <typename T> void sameNumber( T got, T want, const char *what, size_t i )
   {
      if ( !same( got, want ) )
         fail( "%s %zu is %a instead of %a", what, i, static_cast<double>( got ), static_cast<double>( want ) );
   }

   void doubles( const std::string &file, const std::vector<double> &list, int wl, int rl )
   {
      {
         Locale l( wl );
         e57::ImageFile f( file, "w" );
         e57::StructureNode root = f.root();
         e57::VectorNode plain( f, true ), limits( f, true ), scaled( f, true );
         root.set( "plain", plain );
         root.set( "limits", limits );
         root.set( "scaled", scaled );
         for ( size_t i = 0; i < list.size(); ++i )
         {
            const double v = list[i], o = list[list.size() - 1 - i];
            plain.append( e57::FloatNode( f, v ) );
            // limits and scales take turns
            if ( i % 2 == 0 )
               limits.append( e57::FloatNode( f, std::max( v, o ), e57::PrecisionDouble, std::min( v, o ), std::max( v, o ) ) );
            else if ( v != 0 )
               scaled.append( e57::ScaledIntegerNode( f, int64_t( 0 ), int64_t( -1 ), int64_t( 1 ), v, o ) );
         }
         f.close();
      }
      Locale l( rl );
      e57::ImageFile f( file, "r" );
      e57::VectorNode plain( f.root().get( "plain" ) ), limits( f.root().get( "limits" ) ), scaled( f.root().get( "scaled" ) );
      int64_t at = 0;
      for ( size_t i = 0; i < list.size(); ++i )
      {
         const double v = list[i], o = list[list.size() - 1 - i];
         e57::FloatNode a( plain.get( static_cast<int64_t>( i ) ) );
         sameNumber( a.value(), v, "value", i );
         CHECK( a.precision() == e57::PrecisionDouble, "precision of %zu", i );
         if ( i % 2 == 0 )
         {
            e57::FloatNode b( limits.get( static_cast<int64_t>( i / 2 ) ) );
            sameNumber( b.value(), std::max( v, o ), "bounded value", i );
            sameNumber( b.minimum(), std::min( v, o ), "minimum", i );
            sameNumber( b.maximum(), std::max( v, o ), "maximum", i );
            continue;
         }
         if ( v == 0 )
            continue;
         e57::ScaledIntegerNode c( scaled.get( at++ ) );
         sameNumber( c.scale(), v, "scale", i );
         sameNumber( c.offset(), o, "offset", i );
      }
      f.close();
   }

   void singles( const std::string &file, const std::vector<float> &list, int wl, int rl )
   {
      {
         Locale l( wl );
         e57::ImageFile f( file, "w" );
         e57::VectorNode plain( f, true ), limits( f, true );
         f.root().set( "plain", plain );
         f.root().set( "limits", limits );
         for ( size_t i = 0; i < list.size(); ++i )
         {
            const float v = list[i], o = list[list.size() - 1 - i];
            plain.append( e57::FloatNode( f, v, e57::PrecisionSingle ) );
            limits.append( e57::FloatNode( f, std::max( v, o ), e57::PrecisionSingle, std::min( v, o ), std::max( v, o ) ) );
         }
         f.close();
      }
      Locale l( rl );
      e57::ImageFile f( file, "r" );
      e57::VectorNode plain( f.root().get( "plain" ) ), limits( f.root().get( "limits" ) );
      for ( size_t i = 0; i < list.size(); ++i )
      {
         const double v = list[i], o = list[list.size() - 1 - i];
         e57::FloatNode a( plain.get( static_cast<int64_t>( i ) ) ), b( limits.get( static_cast<int64_t>( i ) ) );
         sameNumber( a.value(), v, "value", i );
         CHECK( a.precision() == e57::PrecisionSingle, "precision of %zu", i );
         sameNumber( b.value(), std::max( v, o ), "bounded value", i );
         sameNumber( b.minimum(), std::min( v, o ), "minimum", i );
         sameNumber( b.maximum(), std::max( v, o ), "maximum", i );
      }
      f.close();
   }

   void whole( const std::string &file, const std::vector<int64_t> &list, int wl, int rl )
   {
      {
         Locale l( wl );
         e57::ImageFile f( file, "w" );
         e57::VectorNode plain( f, true ), limits( f, true ), scaled( f, true );
         f.root().set( "plain", plain );
         f.root().set( "limits", limits );
         f.root().set( "scaled", scaled );
         for ( size_t i = 0; i < list.size(); ++i )
         {
            const int64_t v = list[i], o = list[list.size() - 1 - i];
            const int64_t lo = std::min( v, o ), hi = std::max( v, o );
            plain.append( e57::IntegerNode( f, v ) );
            limits.append( e57::IntegerNode( f, i & 1 ? lo : hi, lo, hi ) );
            scaled.append( e57::ScaledIntegerNode( f, i & 1 ? hi : lo, lo, hi, 1.0, 0.0 ) );
         }
         f.close();
      }
      Locale l( rl );
      e57::ImageFile f( file, "r" );
      e57::VectorNode plain( f.root().get( "plain" ) ), limits( f.root().get( "limits" ) ), scaled( f.root().get( "scaled" ) );
      const auto equal = []( int64_t got, int64_t want, const char *what, size_t i ) {
         if ( got != want )
            fail( "%s %zu is %lld instead of %lld", what, i, (long long)got, (long long)want );
      };
      for ( size_t i = 0; i < list.size(); ++i )
      {
         const int64_t v = list[i], o = list[list.size() - 1 - i];
         const int64_t lo = std::min( v, o ), hi = std::max( v, o );
         const int64_t at = static_cast<int64_t>( i );
         e57::IntegerNode a( plain.get( at ) ), b( limits.get( at ) );
         e57::ScaledIntegerNode c( scaled.get( at ) );
         equal( a.value(), v, "value", i );
         equal( b.value(), i & 1 ? lo : hi, "bounded value", i );
         equal( b.minimum(), lo, "minimum", i );
         equal( b.maximum(), hi, "maximum", i );
         equal( c.rawValue(), i & 1 ? hi : lo, "raw value", i );
         equal( c.minimum(), lo, "raw minimum", i );
         equal( c.maximum(), hi, "raw maximum", i );
      }
      f.close();
   }

   // Everything else that is stored as a number: counts, lengths, offsets and names of children
   void document( const std::string &file, int wl, int rl )
   {
      m::N list = m::vec( "list", true );
      for ( int i = 0; i < 1203; ++i )
         list.kids.push_back( m::integer( "", i * 1001 - 5000 ) );
      m::N deep = m::structure( "deep", { m::real( "half", 0.5 ), m::real( "large", -1234567.75 ),
                                          m::integer( "million", 1000000 ), m::str( "text", "1,234.5 1.234,5" ) } );
      const m::N proto = m::structure( "", { m::integer( "i", 0, -1234567, 7654321 ), m::real( "d", 0, false, -1e300, 1.5e300 ),
                                             m::scaled( "s", 0, -100000, 1000000, 0.0125, -1234.5 ) } );
      std::vector<m::Col> cols( 3 );
      cols[0].path = "i", cols[0].type = m::T::Integer;
      cols[1].path = "d", cols[1].type = m::T::Float;
      cols[2].path = "s", cols[2].type = m::T::Scaled;
      for ( int i = 0; i < 1234; ++i )
      {
         cols[0].i.push_back( i * 5000 - 1234567 );
         cols[1].d.push_back( i * 1.0625e297 );
         cols[2].i.push_back( i * 800 - 100000 );
      }
      const m::N root = m::structure( "", { list, deep, m::blob( "small", m::pattern( 3, 1 ) ),
                                            m::blob( "big", m::pattern( 12345, 2 ) ), m::cv( "points", proto, cols ) } );
      {
         Locale l( wl );
         e57::ImageFile f( file, "w" );
         m::writeDoc( f, root );
         f.close();
      }
      Locale l( rl );
      e57::ImageFile f( file, "r" );
      const m::N got = m::observeFile( f );
      for ( int64_t i : { 0, 999, 1000, 1202 } )
      {
         const std::string path = "/list/" + std::to_string( i );
         CHECK( f.root().isDefined( path ), "%s is not defined", path.c_str() );
         CHECK( f.root().get( path ).elementName() == std::to_string( i ), "%s is called %s", path.c_str(),
                f.root().get( path ).elementName().c_str() );
      }
      f.close();
      const std::string d = m::diff( root, got );
      CHECK( d.empty(), "%s", d.c_str() );
   }
}

void vh::enumerate( Run &r )
{
   xercesc::XMLPlatformUtils::Initialize();
   const auto md = mantissas( 52, r.thorough ), ms = mantissas( 23, true );
   for ( uint64_t e = 0; e < 2047; ++e )
      for ( size_t from = 0; from < md.size(); from += 300 )
         r.test( fmt( "double %llu %zu", (unsigned long long)e, from ), [&] {
            std::vector<double> list;
            for ( size_t k = from; k < std::min( md.size(), from + 300 ); ++k )
               list.push_back( makeDouble( ( k + e ) & 1, e, md[k] ) );
            doubles( r.path( "n.e57" ), list, 0, 0 );
            r.count( "numbers", list.size() );
            r.outcome( fmt( "double %llu %zu", (unsigned long long)e, from ) );
         } );
   for ( uint32_t e = 0; e < 255; ++e )
      r.test( fmt( "single %u", e ), [&] {
         std::vector<float> list;
         for ( size_t k = 0; k < ms.size(); ++k )
            list.push_back( makeFloat( ( k + e ) & 1, e, ms[k] ) );
         singles( r.path( "n.e57" ), list, 0, 0 );
         r.count( "numbers", list.size() );
         r.outcome( fmt( "single %u", e ) );
      } );
   if ( r.thorough )
      // all mantissas of some exponents
      for ( uint32_t e : { 0u, 127u } )
         for ( uint32_t from = 0; from < ( 1u << 23 ); from += 4096 )
            r.test( fmt( "single %u from %u", e, from ), [&] {
               std::vector<float> list;
               for ( uint32_t k = from; k < from + 4096; ++k )
                  list.push_back( makeFloat( k & 1, e, k ) );
               singles( r.path( "n.e57" ), list, 0, 0 );
               r.count( "numbers", list.size() );
               r.outcome( fmt( "single %u from %u", e, from ) );
            } );

   for ( int wl = 0; wl < LOCALES; ++wl )
      for ( int rl = 0; rl < LOCALES; ++rl )
      {
         const std::string name = fmt( "locales %d %d", wl, rl );
         r.test( name + " integers", [&] {
            whole( r.path( "n.e57" ), integers(), wl, rl );
            r.count( "numbers", integers().size() );
            r.outcome( name );
         } );
         for ( uint64_t e = 0; e < 2047; e += 150 )
            r.test( fmt( "%s doubles %llu", name.c_str(), (unsigned long long)e ), [&] {
               std::vector<double> list;
               for ( uint64_t k = e; k < std::min<uint64_t>( 2047, e + 150 ); ++k )
                  for ( size_t j : { size_t( 0 ), size_t( 1 ), md.size() / 2, md.size() - 1 } )
                     list.push_back( makeDouble( k & 1, k, md[j] ) );
               doubles( r.path( "n.e57" ), list, wl, rl );
               r.count( "numbers", list.size() );
               r.outcome( name );
            } );
         r.test( name + " singles", [&] {
            std::vector<float> list;
            for ( uint32_t k = 0; k < 255; ++k )
               for ( size_t j : { size_t( 0 ), size_t( 1 ), ms.size() / 2, ms.size() - 1 } )
                  list.push_back( makeFloat( k & 1, k, ms[j] ) );
            singles( r.path( "n.e57" ), list, wl, rl );
            r.count( "numbers", list.size() );
            r.outcome( name );
         } );
         r.test( name + " document", [&] {
            document( r.path( "n.e57" ), wl, rl );
            r.outcome( name + " document" );
         } );
      }
}
