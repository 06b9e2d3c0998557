// Everything that can be read from a file, and every error, as text.
#pragma once

#include "model.hpp"
#include "vh.hpp"

namespace vh
{
   // Where the bytes come from
   struct Source
   {
      std::string path;
      const char *memory = nullptr;
      uint64_t size = 0;
      e57::ImageFile open( int policy ) const
      {
         return memory ? e57::ImageFile( memory, size, policy ) : e57::ImageFile( path, "r", policy );
      }
   };
   // What a reader delivers, until it delivers nothing
   inline void records( e57::CompressedVectorNode v, const m::N &proto, size_t block, std::string &log )
   {
      std::vector<std::pair<std::string, const m::N *>> lv;
      m::leaves( proto, "", lv );
      if ( block == 0 )
         block = static_cast<size_t>( v.childCount() ) + 1;
      std::vector<std::unique_ptr<m::Buf>> bufs;
      std::vector<e57::SourceDestBuffer> list;
      for ( auto &l : lv )
      {
         bufs.emplace_back( new m::Buf( l.second->type == m::T::String ? e57::UString
                                        : l.second->type == m::T::Float ? e57::Real64
                                                                        : e57::Int64,
                                        block ) );
         list.push_back( bufs.back()->sdb( v.destImageFile(), l.first, false, false ) );
      }
      e57::CompressedVectorReader reader = v.reader( list );
      for ( size_t calls = 0; calls < 100000; ++calls )
      {
         const unsigned n = reader.read();
         log += fmt( "<%u>", n );
         if ( n == 0 )
            break;
         for ( unsigned k = 0; k < n; ++k )
            for ( auto &b : bufs )
               log += b->rep == e57::UString ? b->strs[k] + "," : b->isReal() ? fmt( "%a,", b->getReal( k ) ) : fmt( "%lld,", (long long)b->getInt( k ) );
      }
      reader.close();
   }
   // Visits all elements; every blob and every vector is read on its own, so that an error in one
   // does not hide the others
   inline void visit( const e57::Node &n, size_t block, std::string &log )
   {
      switch ( n.type() )
      {
         case e57::TypeStructure:
         {
            e57::StructureNode s( n );
            log += fmt( "{%s %lld ", n.elementName().c_str(), (long long)s.childCount() );
            for ( int64_t k = 0; k < s.childCount(); ++k )
               visit( s.get( k ), block, log );
            log += "}";
            break;
         }
         case e57::TypeVector:
         {
            e57::VectorNode s( n );
            log += fmt( "[%s %lld ", n.elementName().c_str(), (long long)s.childCount() );
            for ( int64_t k = 0; k < s.childCount(); ++k )
               visit( s.get( k ), block, log );
            log += "]";
            break;
         }
         case e57::TypeBlob:
         {
            e57::BlobNode b( n );
            const auto size = b.byteCount();
            log += fmt( "blob %s %lld ", n.elementName().c_str(), (long long)size );
            if ( size >= 0 && size < 1000000 )
            {
               std::vector<uint8_t> bytes( static_cast<size_t>( size ) + 1 );
               const size_t step = block ? block * 100 : static_cast<size_t>( size );
               for ( size_t at = 0; at < static_cast<size_t>( size ); at += step )
                  log += m::attempt( [&] {
                     b.read( bytes.data() + at, static_cast<int64_t>( at ), std::min( step, static_cast<size_t>( size ) - at ) );
                  } ) + ",";
               log += fmt( "%llx ", (unsigned long long)hash( std::string( bytes.begin(), bytes.end() ) ) );
            }
            break;
         }
         case e57::TypeCompressedVector:
         {
            e57::CompressedVectorNode v( n );
            const m::N proto = m::observe( v.prototype(), false );
            log += fmt( "vector %s %lld ", n.elementName().c_str(), (long long)v.childCount() ) + m::show( proto );
            if ( v.childCount() >= 0 && v.childCount() < 100000 )
               log += m::attempt( [&] { records( v, proto, block, log ); } );
            break;
         }
         default:
            log += m::show( m::observe( n, false ) );
      }
   }
   inline std::string transcript( const Source &s, int policy, size_t block )
   {
      std::string log;
      log += m::attempt( [&] {
         e57::ImageFile f = s.open( policy );
         log += "open ";
         CHECK( f.isOpen() && !f.isWritable(), "the file is not open for reading" );
         for ( size_t k = 0; k < f.extensionsCount(); ++k )
            log += "(" + f.extensionsPrefix( k ) + "=" + f.extensionsUri( k ) + ")";
         log += m::attempt( [&] { visit( f.root(), block, log ); } );
         log += m::attempt( [&] { log += fmt( " counts %d %d ", f.readerCount(), f.writerCount() ); } );
         log += m::attempt( [&] { f.close(); } );
         log += f.isOpen() ? "open" : "closed";
      } );
      return log;
   }
}
