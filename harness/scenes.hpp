// Histories that write a file, cut into steps that correspond to calls of the API.
#pragma once

#include "fields.hpp"
#include "model.hpp"

#include "E57SimpleReader.h"
#include "E57SimpleWriter.h"

#include <functional>

namespace scene
{
   struct Step
   {
      const char *name;
      bool retry; // calling it again after a failure is meaningful
      std::function<void()> run;
   };

   // One run of a history; destroying it destroys all objects of the library
   struct Play
   {
      std::string path;
      int policy = e57::ChecksumPolicy::ChecksumAll;
      std::unique_ptr<e57::ImageFile> f;
      std::unique_ptr<e57::Writer> w;
      std::vector<e57::Node> nodes;
      std::unique_ptr<e57::CompressedVectorWriter> cw;
      std::unique_ptr<m::Buf> bufs[4];
      std::vector<e57::SourceDestBuffer> sdb;
      std::vector<Step> steps; // the last one closes the file
      ~Play()
      {
         destroy();
      }
      void destroy()
      {
         cw.reset();
         sdb.clear();
         nodes.clear();
         w.reset();
         f.reset();
      }
      void open()
      {
         steps.push_back( { "open", true, [this] { f.reset( new e57::ImageFile( path, "w", policy ) ); } } );
      }
      void close()
      {
         steps.push_back( { "close", true, [this] { f->close(); } } );
      }
      void set( const char *name, const m::N &n )
      {
         steps.push_back( { "set", true, [this, name, n] {
                              e57::Node x = m::create( *f, n );
                              f->root().set( name, x );
                              nodes.push_back( x );
                           } } );
      }
      void blob( size_t node, int64_t start, std::vector<uint8_t> b )
      {
         steps.push_back( { "blob write", true, [this, node, start, b] {
                              auto copy = b;
                              e57::BlobNode( nodes[node] ).write( copy.data(), start, copy.size() );
                           } } );
      }
      // a vector with an integer, a double and a string
      void vector( size_t node, std::vector<size_t> blocks, size_t stringLength )
      {
         size_t most = 0;
         for ( size_t b : blocks )
            most = std::max( most, b );
         steps.push_back( { "writer", true, [this, node, most] {
                              const e57::MemoryRepresentation reps[] = { e57::Int64, e57::Real64, e57::UString };
                              const char *names[] = { "i", "d", "s" };
                              sdb.clear();
                              for ( int k = 0; k < 3; ++k )
                              {
                                 bufs[k].reset( new m::Buf( reps[k], most ) );
                                 sdb.push_back( bufs[k]->sdb( *f, names[k], false, false ) );
                              }
                              cw.reset( new e57::CompressedVectorWriter( e57::CompressedVectorNode( nodes[node] ).writer( sdb ) ) );
                           } } );
         size_t at = 0;
         for ( size_t b : blocks )
         {
            steps.push_back( { "write", false, [this, at, b, stringLength] {
                                 for ( size_t i = 0; i < b; ++i )
                                 {
                                    bufs[0]->setInt( i, static_cast<int64_t>( ( at + i ) * 37 % 1000 ) );
                                    bufs[1]->setReal( i, static_cast<double>( at + i ) * 0.25 );
                                    bufs[2]->setStr( i, std::string( stringLength - ( at + i ) % std::min<size_t>( stringLength, 50 ), 'a' + ( at + i ) % 26 ) );
                                 }
                                 cw->write( b );
                              } } );
            at += b;
         }
         steps.push_back( { "writer close", false, [this] { cw->close(); } } );
      }
      static m::N vectorNode()
      {
         return m::cv( "", m::structure( "", { m::integer( "i", 0, 0, 1000 ), m::real( "d" ), m::str( "s" ) } ) );
      }
      void scanAndImage( bool points, bool image )
      {
         steps.push_back( { "Writer", true, [this] {
                              e57::WriterOptions o;
                              o.guid = "file";
                              w.reset( new e57::Writer( path, o ) );
                           } } );
         if ( points )
            steps.push_back( { "WriteData3DData", false, [this] {
                                 e57::Data3D h;
                                 h.guid = "scan";
                                 h.pointCount = 60;
                                 h.pointFields.cartesianXField = h.pointFields.cartesianYField = h.pointFields.cartesianZField = true;
                                 h.pointFields.colorRedField = h.pointFields.colorGreenField = h.pointFields.colorBlueField = true;
                                 h.colorLimits.colorRedMaximum = h.colorLimits.colorGreenMaximum = h.colorLimits.colorBlueMaximum = 255;
                                 e57::Data3DPointsDouble p( h );
                                 for ( int i = 0; i < 60; ++i )
                                 {
                                    p.cartesianX[i] = i;
                                    p.cartesianY[i] = i * 2;
                                    p.cartesianZ[i] = i * 3;
                                    p.colorRed[i] = p.colorGreen[i] = p.colorBlue[i] = static_cast<uint16_t>( i );
                                 }
                                 w->WriteData3DData( h, p );
                              } } );
         if ( image )
            steps.push_back( { "WriteImage2DData", false, [this] {
                                 e57::Image2D h;
                                 h.guid = "image";
                                 h.visualReferenceRepresentation.imageWidth = h.visualReferenceRepresentation.imageHeight = 3;
                                 h.visualReferenceRepresentation.jpegImageSize = 1500;
                                 auto b = m::pattern( 1500 );
                                 const auto n = w->WriteImage2DData( h, e57::ImageJPEG, e57::ProjectionVisual, 0, b.data(), 1500 );
                                 if ( n != 1500 )
                                    throw e57::E57Exception( e57::ErrorWriteFailed, "", __FILE__, __LINE__, "" ); // that is how it reports
                              } } );
         steps.push_back( { "Close", true, [this] {
                              if ( !w->Close() )
                                 throw e57::E57Exception( e57::ErrorCloseFailed, "", __FILE__, __LINE__, "" );
                           } } );
      }
   };

   inline const std::vector<const char *> &names()
   {
      static const std::vector<const char *> n = { "empty",   "tree",   "blob",   "blobs",    "records",
                                                   "packets", "mixed", "scan", "image", "longname" };
      return n;
   }
   // A name that ends with "/0" stands for the history without verification of checksums
   inline void set( Play &p, const std::string &name )
   {
      if ( name.size() > 2 && name.substr( name.size() - 2 ) == "/0" )
      {
         p.policy = e57::ChecksumPolicy::ChecksumNone;
         set( p, name.substr( 0, name.size() - 2 ) );
         return;
      }
      if ( name == "scan" || name == "image" )
      {
         p.scanAndImage( name == "scan", name == "image" );
         return;
      }
      p.open();
      if ( name == "tree" )
      {
         p.set( "i", m::integer( "", 7, 0, 9 ) );
         p.set( "v", m::vec( "", true, { m::str( "", "text" ), m::real( "", 0.1 ) } ) );
         p.set( "s", m::structure( "", { m::scaled( "q", 3, -5, 5, 0.5, 2 ) } ) );
      }
      else if ( name == "longname" )
         p.set( "t", m::str( "", std::string( 2100, 'x' ) ) );
      else if ( name == "blob" )
      {
         p.set( "b", m::blob( "", std::vector<uint8_t>( 30 ) ) );
         p.blob( 0, 0, m::pattern( 30 ) );
      }
      else if ( name == "blobs" )
      {
         p.set( "b", m::blob( "", std::vector<uint8_t>( 2500 ) ) );
         p.set( "c", m::blob( "", std::vector<uint8_t>( 1000 ) ) );
         p.blob( 1, 0, m::pattern( 1000, 2 ) );
         p.blob( 0, 0, m::pattern( 1400, 3 ) );
         p.blob( 0, 1400, m::pattern( 1100, 4 ) );
         p.blob( 0, 900, m::pattern( 300, 5 ) );
      }
      else if ( name == "records" )
      {
         p.set( "v", Play::vectorNode() );
         p.vector( 0, { 2, 3 }, 5 );
      }
      else if ( name == "packets" )
      {
         p.set( "v", Play::vectorNode() );
         p.vector( 0, { 130, 1, 2 }, 700 );
      }
      else if ( name == "mixed" )
      {
         p.set( "v", Play::vectorNode() );
         p.set( "b", m::blob( "", std::vector<uint8_t>( 1200 ) ) );
         p.vector( 0, { 3 }, 20 );
         p.set( "u", Play::vectorNode() );
         p.blob( 1, 0, m::pattern( 1200, 6 ) );
         p.vector( 2, { 1, 1 }, 3 );
         p.blob( 1, 5, m::pattern( 7, 7 ) );
      }
      p.close();
   }
}
