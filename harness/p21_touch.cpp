// P21: reading a file touches nothing but that file and never changes it.
//
// Every call that opens, removes, renames or changes a file, and every network call, is recorded
// while files with ordinary and hostile content are read, while all short sequences of reading and
// modifying calls are made on a file opened for reading, and while files are written.
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include <xercesc/util/PlatformUtils.hpp>

#include <dirent.h>
#include <set>

#include "refw57.hpp"
#include "scenes.hpp"
#include "shim.hpp"
#include "simple.hpp"
#include "vh.hpp"

using namespace vh;

namespace
{
   // ---- what is on disk ----
   struct Snapshot
   {
      std::map<std::string, std::vector<char>> files;
      std::map<std::string, std::string> meta;
   };
   Snapshot snapshot( const std::string &dir )
   {
      Snapshot s;
      DIR *d = opendir( dir.c_str() );
      while ( dirent *e = readdir( d ) )
      {
         if ( e->d_name[0] == '.' )
            continue;
         const std::string path = dir + "/" + e->d_name;
         struct stat st;
         if ( lstat( path.c_str(), &st ) != 0 )
            continue;
         s.meta[e->d_name] = fmt( "%u %llu %lld.%ld", st.st_mode, (unsigned long long)st.st_ino, (long long)st.st_mtim.tv_sec,
                                  st.st_mtim.tv_nsec );
         if ( S_ISREG( st.st_mode ) )
            s.files[e->d_name] = m::slurp( path );
      }
      closedir( d );
      return s;
   }
   void same( const Snapshot &before, const Snapshot &after, const std::string &except = "" )
   {
      for ( auto &f : before.meta )
         if ( f.first != except )
         {
            CHECK( after.meta.count( f.first ), "the file %s is gone", f.first.c_str() );
            CHECK( after.meta.at( f.first ) == f.second, "the file %s is changed: %s, %s", f.first.c_str(), f.second.c_str(),
                   after.meta.at( f.first ).c_str() );
         }
      for ( auto &f : before.files )
         if ( f.first != except )
            CHECK( after.files.at( f.first ) == f.second, "the bytes of %s are changed", f.first.c_str() );
      for ( auto &f : after.meta )
         CHECK( f.first == except || before.meta.count( f.first ), "there is a new file %s", f.first.c_str() );
   }
   // Only the file was opened, and only for reading
   void onlyRead( const std::string &path )
   {
      for ( auto &t : shim::touches() )
      {
         CHECK( t.path == path, "%s of %s", t.op.c_str(), t.path.c_str() );
         CHECK( ( t.flags & O_ACCMODE ) == O_RDONLY && !( t.flags & ( O_CREAT | O_TRUNC | O_APPEND ) ), "%s with flags %o", t.op.c_str(),
                t.flags );
      }
      for ( auto &c : shim::calls() )
         CHECK( c.kind == shim::Open || c.kind == shim::Read || c.kind == shim::Seek || c.kind == shim::Close || c.kind == shim::Stat,
                "a %s call", shim::kindName( c.kind ) );
   }
   void onlyWritten( const std::string &path )
   {
      for ( auto &t : shim::touches() )
         CHECK( t.path == path, "%s of %s", t.op.c_str(), t.path.c_str() );
      for ( auto &c : shim::calls() )
      {
         CHECK( c.kind != shim::Rename, "a rename of %s", c.path.c_str() );
         CHECK( c.kind != shim::Remove || c.path == path, "%s is removed", c.path.c_str() );
      }
   }
   std::string sandbox( Run &r, const char *name )
   {
      const std::string dir = r.path( name );
      mkdir( dir.c_str(), 0755 );
      // files which somebody might be tempted to open
      for ( const char *f : { "bait", "bait.dtd", "bait.xsd", "bait.xml", "E57File", "neighbour.e57" } )
         if ( !m::exists( dir + "/" + f ) )
         {
            const std::string text = std::string( f ) == "bait.xml" ? "<a/>" : "<!ENTITY e 'x'>";
            m::spit( dir + "/" + f, std::vector<char>( text.begin(), text.end() ) );
         }
      CHECK( chdir( dir.c_str() ) == 0, "chdir" );
      return dir;
   }

   // ---- hostile documents ----
   struct Hostile
   {
      std::string name, xml;
   };
   std::vector<Hostile> hostile( const std::string &ref )
   {
      const std::string decl = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n";
      const auto body = [&]( const std::string &attrs, const std::string &content ) {
         return "<e57Root type=\"Structure\" xmlns=\"http://www.astm.org/COMMIT/E57/2010-e57-v1.0\"" + attrs + ">\n<formatName type=\"String\">" +
                content + "</formatName></e57Root>";
      };
      const std::string plain = body( "", "x" );
      const std::string xsi = " xmlns:xsi=\"http://www.w3.org/2001/XMLSchema-instance\"";
      return {
         { "doctype system", decl + "<!DOCTYPE e57Root SYSTEM \"" + ref + "\">" + plain },
         { "doctype public", decl + "<!DOCTYPE e57Root PUBLIC \"-//x//y\" \"" + ref + "\">" + plain },
         { "entity", decl + "<!DOCTYPE e57Root [<!ENTITY e SYSTEM \"" + ref + "\">]>" + body( "", "&e;" ) },
         { "public entity", decl + "<!DOCTYPE e57Root [<!ENTITY e PUBLIC \"p\" \"" + ref + "\">]>" + body( "", "&e;" ) },
         { "parameter entity", decl + "<!DOCTYPE e57Root [<!ENTITY % e SYSTEM \"" + ref + "\"> %e;]>" + plain },
         { "unparsed entity",
           decl + "<!DOCTYPE e57Root [<!NOTATION n SYSTEM \"" + ref + "\"><!ENTITY e SYSTEM \"" + ref + "\" NDATA n>]>" + plain },
         { "attribute default",
           decl + "<!DOCTYPE e57Root [<!ATTLIST e57Root xsi:noNamespaceSchemaLocation CDATA \"" + ref + "\">]>" + body( xsi, "x" ) },
         { "schemaLocation", decl + body( xsi + " xsi:schemaLocation=\"http://www.astm.org/COMMIT/E57/2010-e57-v1.0 " + ref + "\"", "x" ) },
         { "schemaLocation other", decl + body( xsi + " xsi:schemaLocation=\"http://other " + ref + "\"", "x" ) },
         { "noNamespaceSchemaLocation", decl + body( xsi + " xsi:noNamespaceSchemaLocation=\"" + ref + "\"", "x" ) },
         { "schemaLocation below",
           decl + "<e57Root type=\"Structure\" xmlns=\"http://www.astm.org/COMMIT/E57/2010-e57-v1.0\"" + xsi +
              "><a type=\"Structure\" xsi:schemaLocation=\"http://www.astm.org/COMMIT/E57/2010-e57-v1.0 " + ref + "\"/></e57Root>" },
         { "include",
           decl + body( " xmlns:xi=\"http://www.w3.org/2001/XInclude\"", "<xi:include href=\"" + ref + "\" parse=\"text\"/>" ) },
         { "include old",
           decl + "<e57Root type=\"Structure\" xmlns=\"http://www.astm.org/COMMIT/E57/2010-e57-v1.0\" "
                  "xmlns:xi=\"http://www.w3.org/2001/XInclude\"><xi:include href=\"" + ref + "\"/></e57Root>" },
         { "stylesheet", decl + "<?xml-stylesheet type=\"text/xsl\" href=\"" + ref + "\"?>" + plain },
         { "base", decl + body( " xml:base=\"" + ref + "\"", "x" ) },
         { "namespace", decl + body( " xmlns:n=\"" + ref + "\"", "x" ) },
         { "encoding", "<?xml version=\"1.0\" encoding=\"bait\"?>" + plain },
         { "file name", decl + body( "", ref ) },
         { "offset", decl + "<e57Root type=\"Structure\" xmlns=\"http://www.astm.org/COMMIT/E57/2010-e57-v1.0\"><b type=\"Blob\" "
                            "fileOffset=\"" + ref + "\" length=\"" + ref + "\"/></e57Root>" },
      };
   }
   // everything that a file offers is read
   void readAll( const std::string &path, int how )
   {
      if ( how == 0 )
      {
         e57::ImageFile f( path, "r" );
         m::observeFile( f );
         f.close();
      }
      else if ( how == 1 )
      {
         e57::ImageFile f( path, "r", e57::CHECKSUM_POLICY_NONE );
         m::observeFile( f, false );
      }
      else if ( how == 2 )
      {
         e57::ImageFile f( path, "r" );
         f.cancel();
      }
      else
      {
         e57::Reader reader( path, e57::ReaderOptions{} );
         e57::E57Root root;
         reader.GetE57Root( root );
         for ( int64_t k = 0; k < reader.GetData3DCount(); ++k )
         {
            e57::Data3D d;
            if ( !reader.ReadData3D( k, d ) )
               continue;
            simple::Buffers<double> b( d.pointFields, 4 );
            auto cr = reader.SetUpData3DPointsData( k, 4, b.b );
            while ( cr.read() > 0 )
            {
            }
            cr.close();
         }
         for ( int64_t k = 0; k < reader.GetImage2DCount(); ++k )
         {
            e57::Image2D i;
            reader.ReadImage2D( k, i );
            e57::Image2DProjection p;
            e57::Image2DType t, mask, q;
            int64_t w, h, size;
            if ( reader.GetImage2DSizes( k, p, t, w, h, size, mask, q ) )
            {
               std::vector<uint8_t> bytes( static_cast<size_t>( size ) + 1 );
               reader.ReadImage2DData( k, p, t, bytes.data(), 0, static_cast<size_t>( size ) );
            }
         }
         if ( how == 3 )
            reader.Close();
      }
   }
   void hostileFiles( Run &r )
   {
      const std::string cwd = r.path( "hostile" );
      // "http" goes to a place where nobody listens
      const std::vector<std::string> refs = { cwd + "/bait",         "bait",        "./bait.dtd", "file:" + cwd + "/bait.xsd",
                                              "file://" + cwd + "/bait.xml", "file://localhost" + cwd + "/bait", "bait.xsd", "bait.xml",
                                              "../hostile/bait",     "missing.dtd", "E57File",    "http://127.0.0.1:9/bait",
                                              "ftp://127.0.0.1:9/b", "//127.0.0.1:9/bait", "neighbour.e57",
                                              "/dev/null" };
      const size_t n = hostile( "x" ).size();
      for ( size_t k = 0; k < n; ++k )
         for ( size_t f = 0; f < refs.size(); ++f )
            for ( int how = 0; how < 5; ++how )
               r.test( [&] { return fmt( "hostile %s ref %zu how %d", hostile( "x" )[k].name.c_str(), f, how ); },
                       [&] {
                          const std::string dir = sandbox( r, "hostile" );
                          const auto h = hostile( refs[f] )[k];
                          const std::string path = dir + "/doc.e57";
                          m::spit( path, refw::withXml( h.xml ) );
                          const auto before = snapshot( dir );
                          shim::start( dir, false );
                          const auto got = m::attempt( [&] { readAll( path, how ); } );
                          shim::stop();
                          onlyRead( path );
                          same( before, snapshot( dir ) );
                          r.outcome( h.name + " " + got );
                       } );
   }

   // ---- ordinary documents ----
   void ordinary( Run &r )
   {
      for ( auto &name : scene::names() )
         for ( int how = 0; how < 5; ++how )
            for ( int damage = 0; damage < 4; ++damage )
               r.test( [&, how, damage] { return fmt( "read %s how %d damage %d", std::string( name ).c_str(), how, damage ); },
                       [&, how, damage] {
                          const std::string dir = sandbox( r, "ordinary" );
                          const std::string path = dir + "/doc.e57";
                          {
                             scene::Play p;
                             p.path = path;
                             scene::set( p, name );
                             for ( auto &s : p.steps )
                                s.run();
                          }
                          auto bytes = m::slurp( path );
                          if ( damage == 1 )
                             bytes[bytes.size() - 500] ^= 1;
                          if ( damage == 2 )
                             bytes.resize( bytes.size() - 1024 );
                          if ( damage == 3 )
                             bytes[3] = '?';
                          m::spit( path, bytes );
                          const auto before = snapshot( dir );
                          shim::start( dir, false );
                          const auto got = m::attempt( [&] { readAll( path, how ); } );
                          shim::stop();
                          onlyRead( path );
                          same( before, snapshot( dir ) );
                          unlink( path.c_str() );
                          r.outcome( fmt( "read %d %s", damage, got.c_str() ) );
                       } );
   }

   // ---- calls on a file opened for reading ----
   struct Objects
   {
      e57::ImageFile f;
      e57::StructureNode root, s;
      e57::VectorNode v;
      e57::BlobNode b;
      e57::CompressedVectorNode c;
      m::Buf buf;
      std::vector<e57::SourceDestBuffer> list;
      std::unique_ptr<e57::CompressedVectorReader> cr;
      size_t at = 0; // records read
      bool open = true;
      Objects( const std::string &path ) :
         f( path, "r" ), root( f.root() ), s( root.get( "s" ) ), v( root.get( "v" ) ), b( root.get( "b" ) ), c( root.get( "c" ) ),
         buf( e57::Int64, 2 )
      {
         list.push_back( buf.sdb( f, "i", false, false ) );
      }
   };
   struct Op
   {
      const char *name;
      bool modifies;
      std::function<std::string( Objects & )> call;
   };
   const std::vector<Op> &ops()
   {
      using O = Objects;
      static const std::vector<Op> all = {
         // to be refused
         { "set", true, []( O &o ) { return m::attempt( [&] { o.root.set( "new", e57::IntegerNode( o.f, 1 ) ); } ); } },
         { "set path", true, []( O &o ) { return m::attempt( [&] { o.root.set( "s/new", e57::StructureNode( o.f ) ); } ); } },
         { "set structure", true, []( O &o ) { return m::attempt( [&] { o.s.set( "new", e57::StringNode( o.f, "x" ) ); } ); } },
         { "append", true, []( O &o ) { return m::attempt( [&] { o.v.append( e57::IntegerNode( o.f, 1 ) ); } ); } },
         { "extension", true, []( O &o ) { return m::attempt( [&] { o.f.extensionsAdd( "new", "http://new" ); } ); } },
         { "blob", true, []( O &o ) { return m::attempt( [&] { e57::BlobNode( o.f, 10 ); } ); } },
         { "blob write", true,
           []( O &o ) {
              uint8_t bytes[10] = { 9, 9, 9 };
              return m::attempt( [&] { o.b.write( bytes, 0, 10 ); } );
           } },
         { "blob write nothing", true,
           []( O &o ) {
              uint8_t bytes[1] = { 9 };
              const auto got = m::attempt( [&] { o.b.write( bytes, 0, 0 ); } );
              return got == "ok" ? std::string( "15" ) : got; // nothing is modified
           } },
         { "writer", true, []( O &o ) { return m::attempt( [&] { o.c.writer( o.list ); } ); } },
         { "writer empty", true,
           []( O &o ) {
              return m::attempt( [&] { e57::CompressedVectorNode( o.root.get( "e" ) ).writer( o.list ); } );
           } },
         // allowed
         { "node", false,
           []( O &o ) {
              // the constructors may refuse a file opened for reading
              const auto got = m::attempt( [&] {
                 e57::StructureNode n( o.f );
                 n.set( "a", e57::IntegerNode( o.f, 1 ) );
                 e57::CompressedVectorNode c( o.f, n, e57::VectorNode( o.f, true ) );
              } );
              return got == "15" ? std::string( "ok" ) : got;
           } },
         { "tree", false,
           []( O &o ) {
              return m::attempt( [&] {
                 CHECK( o.root.childCount() == 5 && o.s.childCount() == 1 && o.v.childCount() == 1 && o.c.childCount() == 3, "the tree" );
                 CHECK( !o.root.isDefined( "new" ) && !o.root.isDefined( "s/new" ) && !o.f.isWritable(), "the tree" );
                 CHECK( o.f.extensionsCount() == 2 && o.f.writerCount() == 0, "the extensions" );
              } );
           } },
         { "blob read", false,
           []( O &o ) {
              std::vector<uint8_t> bytes( 1500 );
              const auto got = m::attempt( [&] { o.b.read( bytes.data(), 0, 1500 ); } );
              CHECK( got != "ok" || bytes == m::pattern( 1500 ), "the blob" );
              return got;
           } },
         { "read", false,
           []( O &o ) {
              return m::attempt( [&] {
                 if ( !o.cr )
                    o.cr.reset( new e57::CompressedVectorReader( o.c.reader( o.list ) ) ), o.at = 0;
                 const size_t n = o.cr->read();
                 CHECK( n == std::min<size_t>( 2, 3 - o.at ), "%zu records", n );
                 for ( size_t k = 0; k < n; ++k )
                    CHECK( o.buf.getInt( k ) == static_cast<int64_t>( o.at + k + 1 ), "record %zu", o.at + k );
                 o.at += n;
                 if ( n == 0 )
                    o.cr->close(), o.cr.reset();
              } );
           } },
         { "close", false,
           []( O &o ) {
              o.open = false;
              return m::attempt( [&] { o.f.close(); } );
           } },
         { "cancel", false,
           []( O &o ) {
              o.open = false;
              return m::attempt( [&] { o.f.cancel(); } );
           } },
      };
      return all;
   }
   void sequences( Run &r )
   {
      m::Col col;
      col.path = "i", col.i = { 1, 2, 3 };
      const m::N proto = m::structure( "", { m::integer( "i", 0, 0, 9 ) } );
      const m::N doc = m::structure( "", { m::structure( "s", { m::integer( "i", 1 ) } ), m::vec( "v", false, { m::integer( "", 1 ) } ),
                                           m::blob( "b", m::pattern( 1500 ) ), m::cv( "c", proto, { col } ), m::cv( "e", proto ) } );
      std::vector<size_t> seq;
      const size_t depth = r.thorough ? 5 : 4;
      std::function<void()> extend = [&] {
         if ( !seq.empty() )
            r.test( [&] {
               std::string key = "calls";
               for ( size_t k : seq )
                  key += std::string( " " ) + ops()[k].name;
               return key;
            },
                    [&] {
                       const std::string dir = sandbox( r, "calls" );
                       const std::string path = dir + "/doc.e57";
                       if ( !m::exists( path ) )
                       {
                          e57::ImageFile f( path, "w" );
                          f.extensionsAdd( "x", "http://x" );
                          m::writeDoc( f, doc );
                          f.close();
                       }
                       const auto before = snapshot( dir );
                       shim::start( dir, false );
                       {
                          Objects o( path );
                          for ( size_t k : seq )
                          {
                             const bool open = o.open;
                             const auto got = ops()[k].call( o );
                             const std::string name = ops()[k].name;
                             if ( !open )
                                CHECK( got == "45" || ( got == "ok" && ( name == "close" || name == "cancel" ) ),
                                       "%s on the closed file: %s", name.c_str(), got.c_str() );
                             else if ( ops()[k].modifies )
                                // other rules may be violated as well
                                CHECK( got == "15" || ( name == "writer" && got == "4" ) ||
                                          ( o.cr && name.compare( 0, 6, "writer" ) == 0 && got == "48" ),
                                       "%s on a file opened for reading: %s", name.c_str(), got.c_str() );
                             else
                                CHECK( got == "ok", "%s: error %s", name.c_str(), got.c_str() );
                          }
                       }
                       shim::stop();
                       onlyRead( path );
                       same( before, snapshot( dir ) );
                       r.outcome( ops()[seq.back()].name );
                    } );
         if ( seq.size() == depth )
            return;
         for ( size_t k = 0; k < ops().size(); ++k )
         {
            seq.push_back( k );
            extend();
            seq.pop_back();
         }
      };
      extend();
   }

   // ---- writing ----
   enum End
   {
      Finish,
      Cancel,
      Destroy
   };
   void writing( Run &r )
   {
      for ( auto &name : scene::names() )
      {
         size_t length;
         {
            scene::Play p;
            scene::set( p, name );
            length = p.steps.size();
         }
         for ( size_t stop = 1; stop <= length; ++stop )
            for ( int end = stop == length ? Finish : Cancel; end <= ( stop == length ? Finish : Destroy ); ++end )
               for ( int existing = 0; existing < 2; ++existing )
                  r.test( [&] {
                     return fmt( "write %s %zu steps end %d existing %d", std::string( name ).c_str(), stop, end, existing );
                  },
                          [&] {
                             const std::string dir = sandbox( r, "writing" );
                             const std::string path = dir + "/doc.e57";
                             unlink( path.c_str() );
                             if ( existing )
                                m::spit( path, std::vector<char>( 5000, 'x' ) );
                             const auto before = snapshot( dir );
                             shim::start( dir, false );
                             {
                                scene::Play p;
                                p.path = path;
                                scene::set( p, name );
                                for ( size_t k = 0; k < stop; ++k )
                                   p.steps[k].run();
                                if ( end == Cancel && p.f )
                                   p.f->cancel();
                             }
                             shim::stop();
                             onlyWritten( path );
                             same( before, snapshot( dir ), "doc.e57" );
                             r.outcome( fmt( "write %d", end ) );
                          } );
      }
      // names that lead elsewhere or can not be written
      for ( const char *file : { "doc.e57", "./doc.e57", "sub/doc.e57", "doc", "doc with space.e57", "d\xc3\xb6" "c.e57", "", ".", "bait/x.e57" } )
         for ( int content = 0; content < 2; ++content )
            r.test( [&] { return fmt( "write to '%s' %d", file, content ); },
                    [&] {
                       const std::string dir = sandbox( r, "names" );
                       const std::string path = *file ? dir + "/" + file : "";
                       const auto before = snapshot( dir );
                       shim::start( dir, false );
                       const auto got = m::attempt( [&] {
                          e57::ImageFile f( path, "w" );
                          if ( content )
                             m::writeDoc( f, m::structure( "", { m::blob( "b", m::pattern( 3000 ) ) } ) );
                          f.close();
                       } );
                       shim::stop();
                       onlyWritten( path );
                       const std::string own = std::string( file ) == "./doc.e57" ? "doc.e57" : file;
                       same( before, snapshot( dir ), got == "ok" ? own : "" );
                       CHECK( ( got == "ok" ) == m::exists( dir + "/" + own ) || own == "." || own.empty(), "the file %s", own.c_str() );
                       if ( got == "ok" )
                          unlink( path.c_str() );
                       r.outcome( "name " + got );
                    } );
   }
}

void vh::enumerate( Run &r )
{
   xercesc::XMLPlatformUtils::Initialize();
   hostileFiles( r );
   ordinary( r );
   sequences( r );
   writing( r );
}
