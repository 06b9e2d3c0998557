From f95a45b7a35cdd984ab25600ab394a2c974cd3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:53:48 +0000
Subject: [PATCH 01/63] fix: compute integer ranges with unsigned arithmetic

The number of states between an integer's minimum and maximum can exceed
what an int64_t holds. Use unsigned arithmetic when sizing, encoding and
decoding such values so that no signed overflow takes place.
---
 src/Decoder.cpp       | 3 ++-
 src/Encoder.cpp       | 3 ++-
 src/ImageFileImpl.cpp | 4 +++-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/Decoder.cpp b/src/Decoder.cpp
index 2024cfe..d5ded0c 100644
--- a/src/Decoder.cpp
+++ b/src/Decoder.cpp
@@ -793,7 +793,8 @@ size_t BitpackIntegerDecoder<RegisterT>::inputProcessAligned( const char *inbuf,
       w &= destBitMask_;
 
       // Add minimum_ to value to get back what writer originally sent
-      int64_t value = minimum_ + static_cast<uint64_t>( w );
+      auto value =
+         static_cast<int64_t>( static_cast<uint64_t>( minimum_ ) + static_cast<uint64_t>( w ) );
 
 #ifdef E57_VERBOSE
       std::cout << "  Storing value=" << value << std::endl;
diff --git a/src/Encoder.cpp b/src/Encoder.cpp
index e0c403f..1f3be8e 100644
--- a/src/Encoder.cpp
+++ b/src/Encoder.cpp
@@ -746,7 +746,8 @@ uint64_t BitpackIntegerEncoder<RegisterT>::processRecords( size_t recordCount )
                                                          " maximum=" + toString( maximum_ ) );
       }
 
-      auto uValue = static_cast<uint64_t>( rawValue - minimum_ );
+      // Unsigned arithmetic, since the difference may not fit in an int64_t.
+      auto uValue = static_cast<uint64_t>( rawValue ) - static_cast<uint64_t>( minimum_ );
 
 #ifdef E57_VERBOSE
       std::cout << "encoding integer rawValue=" << binaryString( rawValue ) << " = "
diff --git a/src/ImageFileImpl.cpp b/src/ImageFileImpl.cpp
index 0187868..684acb1 100644
--- a/src/ImageFileImpl.cpp
+++ b/src/ImageFileImpl.cpp
@@ -786,7 +786,9 @@ namespace e57
       // position of the first 1 (from left) in the binary form of stateCountMinus1.
       //??? move to E57Utility?
 
-      uint64_t stateCountMinus1 = maximum - minimum;
+      // Unsigned arithmetic, since the difference may not fit in an int64_t.
+      uint64_t stateCountMinus1 =
+         static_cast<uint64_t>( maximum ) - static_cast<uint64_t>( minimum );
 
       unsigned log2 = 0;
 
-- 
2.43.0


From 5fa266a4b42bfc4b5ea52a1335b88d0478ca4f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:53:48 +0000
Subject: [PATCH 02/63] fix: allow padding to use the last byte of a full data
 packet

The guard against writing past the end of the packet was one byte too
strict, so a packet whose padding reaches the maximum packet size was
reported as an internal error.
---
 src/CompressedVectorWriterImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CompressedVectorWriterImpl.cpp b/src/CompressedVectorWriterImpl.cpp
index 7099adf..619b2ec 100644
--- a/src/CompressedVectorWriterImpl.cpp
+++ b/src/CompressedVectorWriterImpl.cpp
@@ -565,7 +565,7 @@ namespace e57
       {
          // Double check we aren't accidentally going to write off end of
          // vector<char>
-         if ( p >= &packet[DATA_PACKET_MAX - 1] )
+         if ( p >= &packet[DATA_PACKET_MAX] )
          {
             throw E57_EXCEPTION1( ErrorInternal );
          }
-- 
2.43.0


From 876ad36f6acc497e33d9bc0a8e8404098f969b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:53:48 +0000
Subject: [PATCH 03/63] fix: stop decoding strings when the destination buffer
 is full

Reading a string field into a buffer smaller than the number of available
records ran past the buffer's capacity and was reported as an internal
error. Leave the remaining input for the next read, like the other
decoders do.
---
 src/Decoder.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Decoder.cpp b/src/Decoder.cpp
index d5ded0c..286a40e 100644
--- a/src/Decoder.cpp
+++ b/src/Decoder.cpp
@@ -512,9 +512,10 @@ size_t BitpackStringDecoder::inputProcessAligned( const char *inbuf, const size_
    size_t nBytesAvailable = ( endBit - firstBit ) >> 3;
    size_t nBytesRead = 0;
 
-   // Loop until we've finished all the records, or ran out of input currently
+   // Loop until we've finished all the records, filled destBuffer, or ran out of input currently
    // available
-   while ( currentRecordIndex_ < maxRecordCount_ && nBytesRead < nBytesAvailable )
+   while ( currentRecordIndex_ < maxRecordCount_ && nBytesRead < nBytesAvailable &&
+           destBuffer_->nextIndex() < destBuffer_->capacity() )
    {
 #ifdef E57_VERBOSE
       std::cout << "read string loop1: readingPrefix=" << readingPrefix_
-- 
2.43.0


From 12ea4c253fa6cc4ba495ebd672c66e7f10239db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:53:50 +0000
Subject: [PATCH 04/63] fix: write a usable first data packet when no field
 produces data

A section whose fields are all constant, or a writer closed without any
records, had no data packet at all, and a zero length write placed a packet
without bytestreams among the others. Neither could be read back. Write one
data packet with empty bytestreams on close if there is no other one.
---
 src/CompressedVectorWriterImpl.cpp | 23 +++++++++++++++++++----
 src/CompressedVectorWriterImpl.h   |  2 +-
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/CompressedVectorWriterImpl.cpp b/src/CompressedVectorWriterImpl.cpp
index 619b2ec..d70b63c 100644
--- a/src/CompressedVectorWriterImpl.cpp
+++ b/src/CompressedVectorWriterImpl.cpp
@@ -183,6 +183,13 @@ namespace e57
          flush();
       }
 
+      // The section header must refer to a data packet, so if nothing needed one (there are no
+      // records, or all of the fields are constant), write one without any data.
+      if ( dataPacketsCount_ == 0 )
+      {
+         packetWriteEmpty();
+      }
+
       // Write one index packet (required by standard).
       packetWriteIndex();
 
@@ -292,7 +299,6 @@ namespace e57
 
       if ( requestedRecordCount == 0 )
       {
-         packetWriteZeroRecords();
          return;
       }
 
@@ -616,9 +622,9 @@ namespace e57
       return ( packetPhysicalOffset ); //??? needed
    }
 
-   // If we don't have any records, write a packet which is only the header + zero padding.
+   // If we don't have any data, write a packet whose bytestreams are all empty.
    // Code is a simplified version of packetWrite().
-   void CompressedVectorWriterImpl::packetWriteZeroRecords()
+   void CompressedVectorWriterImpl::packetWriteEmpty()
    {
       ImageFileImplSharedPtr imf( cVector_->destImageFile_ );
 
@@ -629,8 +635,16 @@ namespace e57
 
       auto packetLength = static_cast<unsigned int>( sizeof( DataPacketHeader ) );
 
-      // packetLength must be multiple of 4, add zero padding
+      // Each bytestream has a length of zero
       auto data = reinterpret_cast<char *>( &packet[sizeof( DataPacketHeader )] );
+      for ( size_t i = 0; i < bytestreams_.size() * sizeof( uint16_t ); ++i )
+      {
+         *data++ = 0;
+
+         packetLength++;
+      }
+
+      // packetLength must be multiple of 4, add zero padding
       while ( packetLength % 4 )
       {
          *data++ = 0;
@@ -640,6 +654,7 @@ namespace e57
 
       // Prepare header in dataPacket_, now that we are sure of packetLength
       dataPacket_.header.packetLogicalLengthMinus1 = static_cast<uint16_t>( packetLength - 1 );
+      dataPacket_.header.bytestreamCount = static_cast<uint16_t>( bytestreams_.size() );
 
       // Double check that data packet is well formed
       dataPacket_.verify( packetLength );
diff --git a/src/CompressedVectorWriterImpl.h b/src/CompressedVectorWriterImpl.h
index 5596267..aa585ff 100644
--- a/src/CompressedVectorWriterImpl.h
+++ b/src/CompressedVectorWriterImpl.h
@@ -57,7 +57,7 @@ namespace e57
       size_t totalOutputAvailable() const;
       size_t currentPacketSize() const;
       uint64_t packetWrite();
-      void packetWriteZeroRecords();
+      void packetWriteEmpty();
       void packetWriteIndex();
 
       void flush();
-- 
2.43.0


From bd277e545c0a588210fbbd34b9bcae1d374237ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:54:42 +0000
Subject: [PATCH 05/63] fix: apply the scaling when encoding a constant
 ScaledInteger

A ScaledInteger whose minimum and maximum are equal is encoded without any
data, and its values are only checked. The check ignored the scale and the
offset, so that correct scaled values were refused and values which do not
match were accepted.
---
 src/Encoder.cpp | 15 +++++++++------
 src/Encoder.h   |  7 ++++++-
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/Encoder.cpp b/src/Encoder.cpp
index 1f3be8e..824fddb 100644
--- a/src/Encoder.cpp
+++ b/src/Encoder.cpp
@@ -83,7 +83,7 @@ std::shared_ptr<Encoder> Encoder::EncoderFactory( unsigned bytestreamNumber,
          if ( bitsPerRecord == 0 )
          {
             std::shared_ptr<Encoder> encoder(
-               new ConstantIntegerEncoder( bytestreamNumber, sbuf, ini->minimum() ) );
+               new ConstantIntegerEncoder( false, bytestreamNumber, sbuf, ini->minimum(), 1.0, 0.0 ) );
 
             return encoder;
          }
@@ -138,7 +138,8 @@ std::shared_ptr<Encoder> Encoder::EncoderFactory( unsigned bytestreamNumber,
          if ( bitsPerRecord == 0 )
          {
             std::shared_ptr<Encoder> encoder(
-               new ConstantIntegerEncoder( bytestreamNumber, sbuf, sini->minimum() ) );
+               new ConstantIntegerEncoder( true, bytestreamNumber, sbuf, sini->minimum(),
+                                           sini->scale(), sini->offset() ) );
 
             return encoder;
          }
@@ -894,10 +895,11 @@ void BitpackIntegerEncoder<RegisterT>::dump( int indent, std::ostream &os ) cons
 
 //================================================================
 
-ConstantIntegerEncoder::ConstantIntegerEncoder( unsigned bytestreamNumber, SourceDestBuffer &sbuf,
-                                                int64_t minimum ) :
+ConstantIntegerEncoder::ConstantIntegerEncoder( bool isScaledInteger, unsigned bytestreamNumber,
+                                                SourceDestBuffer &sbuf, int64_t minimum,
+                                                double scale, double offset ) :
    Encoder( bytestreamNumber ), sourceBuffer_( sbuf.impl() ), currentRecordIndex_( 0 ),
-   minimum_( minimum )
+   isScaledInteger_( isScaledInteger ), minimum_( minimum ), scale_( scale ), offset_( offset )
 {
 }
 
@@ -912,7 +914,8 @@ uint64_t ConstantIntegerEncoder::processRecords( size_t recordCount )
    // Check that all source values are == minimum_
    for ( unsigned i = 0; i < recordCount; i++ )
    {
-      int64_t nextInt64 = sourceBuffer_->getNextInt64();
+      int64_t nextInt64 = isScaledInteger_ ? sourceBuffer_->getNextInt64( scale_, offset_ )
+                                           : sourceBuffer_->getNextInt64();
       if ( nextInt64 != minimum_ )
       {
          throw E57_EXCEPTION2( ErrorValueOutOfBounds, "nextInt64=" + toString( nextInt64 ) +
diff --git a/src/Encoder.h b/src/Encoder.h
index 5806f6a..9f2ece6 100644
--- a/src/Encoder.h
+++ b/src/Encoder.h
@@ -176,7 +176,9 @@ namespace e57
    class ConstantIntegerEncoder : public Encoder
    {
    public:
-      ConstantIntegerEncoder( unsigned bytestreamNumber, SourceDestBuffer &sbuf, int64_t minimum );
+      ConstantIntegerEncoder( bool isScaledInteger, unsigned bytestreamNumber,
+                              SourceDestBuffer &sbuf, int64_t minimum, double scale,
+                              double offset );
       uint64_t processRecords( size_t recordCount ) override;
       unsigned sourceBufferNextIndex() override;
       uint64_t currentRecordIndex() override;
@@ -198,6 +200,9 @@ namespace e57
    protected:
       std::shared_ptr<SourceDestBufferImpl> sourceBuffer_;
       uint64_t currentRecordIndex_;
+      bool isScaledInteger_;
       int64_t minimum_;
+      double scale_;
+      double offset_;
    };
 }
-- 
2.43.0


From 2b00fb0dd078bbf61f5132028d00c9d0f555443c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:54:42 +0000
Subject: [PATCH 06/63] fix: transfer data to and from newly specified buffers

CompressedVectorReader::read() and CompressedVectorWriter::write() accept new
buffers, but the decoders and encoders kept on using the ones they were
created with.
---
 src/CompressedVectorReaderImpl.cpp | 10 ++++++++++
 src/CompressedVectorWriterImpl.cpp | 17 +++++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/src/CompressedVectorReaderImpl.cpp b/src/CompressedVectorReaderImpl.cpp
index 21eed23..eeaa598 100644
--- a/src/CompressedVectorReaderImpl.cpp
+++ b/src/CompressedVectorReaderImpl.cpp
@@ -220,6 +220,16 @@ namespace e57
       }
 
       dbufs_ = dbufs;
+
+      // If channels already exist, direct their output to the new buffers. Channels are in the same
+      // order as the buffers.
+      for ( size_t i = 0; i < channels_.size(); i++ )
+      {
+         std::vector<SourceDestBuffer> theDbuf( 1, dbufs_[i] );
+
+         channels_[i].dbuf = dbufs_[i];
+         channels_[i].decoder->destBufferSetNew( theDbuf );
+      }
    }
 
    unsigned CompressedVectorReaderImpl::read( std::vector<SourceDestBuffer> &dbufs )
diff --git a/src/CompressedVectorWriterImpl.cpp b/src/CompressedVectorWriterImpl.cpp
index d70b63c..6be904f 100644
--- a/src/CompressedVectorWriterImpl.cpp
+++ b/src/CompressedVectorWriterImpl.cpp
@@ -277,6 +277,23 @@ namespace e57
       proto_->checkBuffers( sbufs, false );
 
       sbufs_ = sbufs;
+
+      // If encoders already exist, make them read from the new buffers. Encoders are ordered by
+      // bytestreamNumber, not by order of the buffers.
+      if ( !bytestreams_.empty() )
+      {
+         for ( auto &sbuf : sbufs_ )
+         {
+            uint64_t bytestreamNumber = 0;
+            if ( !proto_->findTerminalPosition( proto_->get( sbuf.pathName() ), bytestreamNumber ) )
+            {
+               throw E57_EXCEPTION2( ErrorInternal, "pathName=" + sbuf.pathName() );
+            }
+
+            std::vector<SourceDestBuffer> vTemp( 1, sbuf );
+            bytestreams_.at( bytestreamNumber )->sourceBufferSetNew( vTemp );
+         }
+      }
    }
 
    void CompressedVectorWriterImpl::write( std::vector<SourceDestBuffer> &sbufs,
-- 
2.43.0


From 9913426006741e56e1f9147db2daccc6895a0fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:54:45 +0000
Subject: [PATCH 07/63] fix: compare the documented attributes of replacement
 buffers

New buffers must be identical to the previous ones except for their capacity
and address. The capacity was compared nevertheless, and the doScaling flag
was not.
---
 src/SourceDestBufferImpl.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/SourceDestBufferImpl.cpp b/src/SourceDestBufferImpl.cpp
index 9da1777..ca21bee 100644
--- a/src/SourceDestBufferImpl.cpp
+++ b/src/SourceDestBufferImpl.cpp
@@ -983,18 +983,18 @@ void SourceDestBufferImpl::checkCompatible(
                             "memoryRepresentation=" + toString( memoryRepresentation_ ) +
                                " newMemoryType=" + toString( newBuf->memoryRepresentation() ) );
    }
-   if ( capacity_ != newBuf->capacity() )
-   {
-      throw E57_EXCEPTION2( ErrorBuffersNotCompatible,
-                            "capacity=" + toString( capacity_ ) +
-                               " newCapacity=" + toString( newBuf->capacity() ) );
-   }
    if ( doConversion_ != newBuf->doConversion() )
    {
       throw E57_EXCEPTION2( ErrorBuffersNotCompatible,
                             "doConversion=" + toString( doConversion_ ) +
                                "newDoConversion=" + toString( newBuf->doConversion() ) );
    }
+   if ( doScaling_ != newBuf->doScaling() )
+   {
+      throw E57_EXCEPTION2( ErrorBuffersNotCompatible,
+                            "doScaling=" + toString( doScaling_ ) +
+                               " newDoScaling=" + toString( newBuf->doScaling() ) );
+   }
    if ( stride_ != newBuf->stride() )
    {
       throw E57_EXCEPTION2( ErrorBuffersNotCompatible,
-- 
2.43.0


From a75b39e77608a2b88b8e858d5c741b2548fc4472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:04:18 +0000
Subject: [PATCH 08/63] fix: do not invert values read into bool buffers

A nonzero value was delivered as false and zero as true. Bool source
buffers map true to 1, so a round trip inverted every value.
---
 src/SourceDestBufferImpl.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/SourceDestBufferImpl.cpp b/src/SourceDestBufferImpl.cpp
index ca21bee..4a15e36 100644
--- a/src/SourceDestBufferImpl.cpp
+++ b/src/SourceDestBufferImpl.cpp
@@ -238,7 +238,7 @@ template <typename T> void SourceDestBufferImpl::_setNextReal( T inValue )
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         *reinterpret_cast<bool *>( p ) = ( inValue ? false : true );
+         *reinterpret_cast<bool *>( p ) = ( inValue ? true : false );
          break;
       case Real32:
          if ( std::is_same<T, double>::value )
@@ -781,7 +781,7 @@ void SourceDestBufferImpl::setNextInt64( int64_t value )
          *reinterpret_cast<int64_t *>( p ) = static_cast<int64_t>( value );
          break;
       case Bool:
-         *reinterpret_cast<bool *>( p ) = ( value ? false : true );
+         *reinterpret_cast<bool *>( p ) = ( value ? true : false );
          break;
       case Real32:
          if ( !doConversion_ )
@@ -908,7 +908,7 @@ void SourceDestBufferImpl::setNextInt64( int64_t value, double scale, double off
          *reinterpret_cast<int64_t *>( p ) = static_cast<int64_t>( scaledValue );
          break;
       case Bool:
-         *reinterpret_cast<bool *>( p ) = ( scaledValue ? false : true );
+         *reinterpret_cast<bool *>( p ) = ( scaledValue ? true : false );
          break;
       case Real32:
          if ( !doConversion_ )
-- 
2.43.0


From 6b03414c437d7617dc96da35966b2e8a2f580374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:04:20 +0000
Subject: [PATCH 09/63] fix: check doubles against the range of float before
 narrowing

Doubles beyond the float range were compared with the range of double, so
they silently became infinite instead of raising the documented error.
---
 src/SourceDestBufferImpl.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/SourceDestBufferImpl.cpp b/src/SourceDestBufferImpl.cpp
index 4a15e36..33df3d3 100644
--- a/src/SourceDestBufferImpl.cpp
+++ b/src/SourceDestBufferImpl.cpp
@@ -246,7 +246,7 @@ template <typename T> void SourceDestBufferImpl::_setNextReal( T inValue )
             /// Does this count as conversion?  It loses information.
             /// Check for really large exponents that can't fit in a single
             /// precision
-            if ( inValue < DOUBLE_MIN || DOUBLE_MAX < inValue )
+            if ( inValue < FLOAT_MIN || FLOAT_MAX < inValue )
             {
                throw E57_EXCEPTION2( ErrorValueNotRepresentable,
                                      "pathName=" + pathName_ + " value=" + toString( inValue ) );
@@ -588,7 +588,7 @@ float SourceDestBufferImpl::getNextFloat()
          double d = *reinterpret_cast<double *>( p );
 
          ///??? silently limit here?
-         if ( d < DOUBLE_MIN || DOUBLE_MAX < d )
+         if ( d < FLOAT_MIN || FLOAT_MAX < d )
          {
             throw E57_EXCEPTION2( ErrorReal64TooLarge,
                                   "pathName=" + pathName_ + " value=" + toString( d ) );
@@ -917,7 +917,7 @@ void SourceDestBufferImpl::setNextInt64( int64_t value, double scale, double off
          }
          /// Check that exponent of result is not too big for single precision
          /// float
-         if ( scaledValue < DOUBLE_MIN || DOUBLE_MAX < scaledValue )
+         if ( scaledValue < FLOAT_MIN || FLOAT_MAX < scaledValue )
          {
             throw E57_EXCEPTION2( ErrorScaledValueNotRepresentable,
                                   "pathName=" + pathName_ +
-- 
2.43.0


From e53247733af5d85c5e9af9792da468e17e781898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:03 +0000
Subject: [PATCH 10/63] fix: refuse real values that no integer of the target
 type can hold

NaN passed every range check, the upper limits of the 32 and 64 bit types
were rounded up to a power of two that does not fit, and some conversions
to 64 bit integers had no check. The resulting casts are undefined
behaviour and produced arbitrary integers.
---
 src/SourceDestBufferImpl.cpp | 66 ++++++++++++++++++++++++++----------
 1 file changed, 48 insertions(+), 18 deletions(-)

diff --git a/src/SourceDestBufferImpl.cpp b/src/SourceDestBufferImpl.cpp
index 33df3d3..c33c93b 100644
--- a/src/SourceDestBufferImpl.cpp
+++ b/src/SourceDestBufferImpl.cpp
@@ -26,6 +26,7 @@
  */
 
 #include <cmath>
+#include <limits>
 
 #include "ImageFileImpl.h"
 #include "SourceDestBufferImpl.h"
@@ -33,6 +34,21 @@
 
 using namespace e57;
 
+namespace
+{
+   /// Can the real value be converted to the integer type? Never true for NaN.
+   template <typename IntT, typename RealT> bool fitsInteger( RealT value )
+   {
+      /// The largest integer may get rounded up to a power of two when converted to RealT. That
+      /// power of two is one too large.
+      constexpr auto cMin = static_cast<RealT>( std::numeric_limits<IntT>::min() );
+      constexpr auto cMax = static_cast<RealT>( std::numeric_limits<IntT>::max() );
+      const RealT cEnd = std::ldexp( RealT( 1 ), std::numeric_limits<IntT>::digits );
+
+      return ( value >= cMin ) && ( value <= cMax ) && ( value < cEnd );
+   }
+}
+
 SourceDestBufferImpl::SourceDestBufferImpl( ImageFileImplWeakPtr destImageFile,
                                             const ustring &pathName, const size_t capacity,
                                             bool doConversion, bool doScaling ) :
@@ -152,9 +168,7 @@ template <typename T> void SourceDestBufferImpl::_setNextReal( T inValue )
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         //??? fault if get special value: NaN, NegInf...  (all other ints below
-         // too)
-         if ( inValue < INT8_MIN || INT8_MAX < inValue )
+         if ( !fitsInteger<int8_t>( inValue ) )
          {
             throw E57_EXCEPTION2( ErrorValueNotRepresentable,
                                   "pathName=" + pathName_ + " value=" + toString( inValue ) );
@@ -166,7 +180,7 @@ template <typename T> void SourceDestBufferImpl::_setNextReal( T inValue )
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         if ( inValue < UINT8_MIN || UINT8_MAX < inValue )
+         if ( !fitsInteger<uint8_t>( inValue ) )
          {
             throw E57_EXCEPTION2( ErrorValueNotRepresentable,
                                   "pathName=" + pathName_ + " value=" + toString( inValue ) );
@@ -178,7 +192,7 @@ template <typename T> void SourceDestBufferImpl::_setNextReal( T inValue )
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         if ( inValue < INT16_MIN || INT16_MAX < inValue )
+         if ( !fitsInteger<int16_t>( inValue ) )
          {
             throw E57_EXCEPTION2( ErrorValueNotRepresentable,
                                   "pathName=" + pathName_ + " value=" + toString( inValue ) );
@@ -190,7 +204,7 @@ template <typename T> void SourceDestBufferImpl::_setNextReal( T inValue )
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         if ( inValue < UINT16_MIN || UINT16_MAX < inValue )
+         if ( !fitsInteger<uint16_t>( inValue ) )
          {
             throw E57_EXCEPTION2( ErrorValueNotRepresentable,
                                   "pathName=" + pathName_ + " value=" + toString( inValue ) );
@@ -202,7 +216,7 @@ template <typename T> void SourceDestBufferImpl::_setNextReal( T inValue )
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         if ( inValue < INT32_MIN || ( inValue > static_cast<T>( INT32_MAX ) ) )
+         if ( !fitsInteger<int32_t>( inValue ) )
          {
             throw E57_EXCEPTION2( ErrorValueNotRepresentable,
                                   "pathName=" + pathName_ + " value=" + toString( inValue ) );
@@ -214,7 +228,7 @@ template <typename T> void SourceDestBufferImpl::_setNextReal( T inValue )
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         if ( inValue < UINT32_MIN || ( inValue > ( static_cast<T>( UINT32_MAX ) ) ) )
+         if ( !fitsInteger<uint32_t>( inValue ) )
          {
             throw E57_EXCEPTION2( ErrorValueNotRepresentable,
                                   "pathName=" + pathName_ + " value=" + toString( inValue ) );
@@ -226,7 +240,7 @@ template <typename T> void SourceDestBufferImpl::_setNextReal( T inValue )
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         if ( inValue < INT64_MIN || ( inValue > ( static_cast<T>( INT64_MAX ) ) ) )
+         if ( !fitsInteger<int64_t>( inValue ) )
          {
             throw E57_EXCEPTION2( ErrorValueNotRepresentable,
                                   "pathName=" + pathName_ + " value=" + toString( inValue ) );
@@ -364,7 +378,12 @@ int64_t SourceDestBufferImpl::getNextInt64()
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         //??? fault if get special value: NaN, NegInf...
+         if ( !fitsInteger<int64_t>( *reinterpret_cast<float *>( p ) ) )
+         {
+            throw E57_EXCEPTION2( ErrorValueNotRepresentable,
+                                  "pathName=" + pathName_ +
+                                     " value=" + toString( *reinterpret_cast<float *>( p ) ) );
+         }
          value = static_cast<int64_t>( *reinterpret_cast<float *>( p ) );
          break;
       case Real64:
@@ -372,7 +391,12 @@ int64_t SourceDestBufferImpl::getNextInt64()
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         //??? fault if get special value: NaN, NegInf...
+         if ( !fitsInteger<int64_t>( *reinterpret_cast<double *>( p ) ) )
+         {
+            throw E57_EXCEPTION2( ErrorValueNotRepresentable,
+                                  "pathName=" + pathName_ +
+                                     " value=" + toString( *reinterpret_cast<double *>( p ) ) );
+         }
          value = static_cast<int64_t>( *reinterpret_cast<double *>( p ) );
          break;
       case UString:
@@ -492,7 +516,7 @@ int64_t SourceDestBufferImpl::getNextInt64( double scale, double offset )
    }
 
    /// Make sure that value is representable in an int64_t
-   if ( doubleRawValue < INT64_MIN || ( doubleRawValue > ( static_cast<double>( INT64_MAX ) ) ) )
+   if ( !fitsInteger<int64_t>( doubleRawValue ) )
    {
       throw E57_EXCEPTION2( ErrorScaledValueNotRepresentable,
                             "pathName=" + pathName_ + " value=" + toString( doubleRawValue ) );
@@ -851,7 +875,7 @@ void SourceDestBufferImpl::setNextInt64( int64_t value, double scale, double off
    switch ( memoryRepresentation_ )
    {
       case Int8:
-         if ( scaledValue < INT8_MIN || INT8_MAX < scaledValue )
+         if ( !fitsInteger<int8_t>( scaledValue ) )
          {
             throw E57_EXCEPTION2( ErrorScaledValueNotRepresentable,
                                   "pathName=" + pathName_ +
@@ -860,7 +884,7 @@ void SourceDestBufferImpl::setNextInt64( int64_t value, double scale, double off
          *reinterpret_cast<int8_t *>( p ) = static_cast<int8_t>( scaledValue );
          break;
       case UInt8:
-         if ( scaledValue < UINT8_MIN || UINT8_MAX < scaledValue )
+         if ( !fitsInteger<uint8_t>( scaledValue ) )
          {
             throw E57_EXCEPTION2( ErrorScaledValueNotRepresentable,
                                   "pathName=" + pathName_ +
@@ -869,7 +893,7 @@ void SourceDestBufferImpl::setNextInt64( int64_t value, double scale, double off
          *reinterpret_cast<uint8_t *>( p ) = static_cast<uint8_t>( scaledValue );
          break;
       case Int16:
-         if ( scaledValue < INT16_MIN || INT16_MAX < scaledValue )
+         if ( !fitsInteger<int16_t>( scaledValue ) )
          {
             throw E57_EXCEPTION2( ErrorScaledValueNotRepresentable,
                                   "pathName=" + pathName_ +
@@ -878,7 +902,7 @@ void SourceDestBufferImpl::setNextInt64( int64_t value, double scale, double off
          *reinterpret_cast<int16_t *>( p ) = static_cast<int16_t>( scaledValue );
          break;
       case UInt16:
-         if ( scaledValue < UINT16_MIN || UINT16_MAX < scaledValue )
+         if ( !fitsInteger<uint16_t>( scaledValue ) )
          {
             throw E57_EXCEPTION2( ErrorScaledValueNotRepresentable,
                                   "pathName=" + pathName_ +
@@ -887,7 +911,7 @@ void SourceDestBufferImpl::setNextInt64( int64_t value, double scale, double off
          *reinterpret_cast<uint16_t *>( p ) = static_cast<uint16_t>( scaledValue );
          break;
       case Int32:
-         if ( scaledValue < INT32_MIN || INT32_MAX < scaledValue )
+         if ( !fitsInteger<int32_t>( scaledValue ) )
          {
             throw E57_EXCEPTION2( ErrorScaledValueNotRepresentable,
                                   "pathName=" + pathName_ +
@@ -896,7 +920,7 @@ void SourceDestBufferImpl::setNextInt64( int64_t value, double scale, double off
          *reinterpret_cast<int32_t *>( p ) = static_cast<int32_t>( scaledValue );
          break;
       case UInt32:
-         if ( scaledValue < UINT32_MIN || UINT32_MAX < scaledValue )
+         if ( !fitsInteger<uint32_t>( scaledValue ) )
          {
             throw E57_EXCEPTION2( ErrorScaledValueNotRepresentable,
                                   "pathName=" + pathName_ +
@@ -905,6 +929,12 @@ void SourceDestBufferImpl::setNextInt64( int64_t value, double scale, double off
          *reinterpret_cast<uint32_t *>( p ) = static_cast<uint32_t>( scaledValue );
          break;
       case Int64:
+         if ( !fitsInteger<int64_t>( scaledValue ) )
+         {
+            throw E57_EXCEPTION2( ErrorScaledValueNotRepresentable,
+                                  "pathName=" + pathName_ +
+                                     " scaledValue=" + toString( scaledValue ) );
+         }
          *reinterpret_cast<int64_t *>( p ) = static_cast<int64_t>( scaledValue );
          break;
       case Bool:
-- 
2.43.0


From 961f588fdb5edbe9de8b288b30f6bb417eca0cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:32 +0000
Subject: [PATCH 11/63] fix: release the packet cache when a reader cannot be
 constructed

The first packet is read through the cache in the constructor. When that
failed, the cache (2 MB) was never freed.
---
 src/CompressedVectorReaderImpl.cpp | 6 ++----
 src/CompressedVectorReaderImpl.h   | 2 +-
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/CompressedVectorReaderImpl.cpp b/src/CompressedVectorReaderImpl.cpp
index eeaa598..478a3e5 100644
--- a/src/CompressedVectorReaderImpl.cpp
+++ b/src/CompressedVectorReaderImpl.cpp
@@ -132,8 +132,7 @@ namespace e57
       uint64_t dataLogicalOffset =
          imf->file_->physicalToLogical( sectionHeader.dataPhysicalOffset );
 
-      //??? what if fault in this constructor?
-      cache_ = new PacketReadCache( imf->file_, 32 );
+      cache_.reset( new PacketReadCache( imf->file_, 32 ) );
 
       // Verify that packet given by dataPhysicalOffset is actually a data packet,
       // init channels
@@ -590,8 +589,7 @@ namespace e57
       // Destroy decoders
       channels_.clear();
 
-      delete cache_;
-      cache_ = nullptr;
+      cache_.reset();
 
       isOpen_ = false;
    }
diff --git a/src/CompressedVectorReaderImpl.h b/src/CompressedVectorReaderImpl.h
index 3064bc1..65aa8b8 100644
--- a/src/CompressedVectorReaderImpl.h
+++ b/src/CompressedVectorReaderImpl.h
@@ -70,7 +70,7 @@ namespace e57
       std::shared_ptr<CompressedVectorNodeImpl> cVector_;
       NodeImplSharedPtr proto_;
       std::vector<DecodeChannel> channels_;
-      PacketReadCache *cache_;
+      std::unique_ptr<PacketReadCache> cache_;
 
       uint64_t recordCount_; /// number of records written so far
       uint64_t maxRecordCount_;
-- 
2.43.0


From 51b873d6559627db74345566659c60603e250176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:19:25 +0000
Subject: [PATCH 12/63] fix: refuse blob accesses with a negative start or an
 overflowing end

The bounds check added start and count as unsigned numbers, so a negative
start or a huge count wrapped around and was accepted. A write could then
overwrite the section header or the data in front of the blob.
---
 src/BlobNodeImpl.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/BlobNodeImpl.cpp b/src/BlobNodeImpl.cpp
index 12ba879..00470a4 100644
--- a/src/BlobNodeImpl.cpp
+++ b/src/BlobNodeImpl.cpp
@@ -123,10 +123,9 @@ namespace e57
 
    void BlobNodeImpl::read( uint8_t *buf, int64_t start, size_t count )
    {
-      //??? check start not negative
-
       checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
-      if ( static_cast<uint64_t>( start ) + count > blobLogicalLength_ )
+      if ( start < 0 || count > blobLogicalLength_ ||
+           static_cast<uint64_t>( start ) > blobLogicalLength_ - count )
       {
          throw E57_EXCEPTION2( ErrorBadAPIArgument,
                                "this->pathName=" + this->pathName() +
@@ -142,7 +141,6 @@ namespace e57
 
    void BlobNodeImpl::write( uint8_t *buf, int64_t start, size_t count )
    {
-      //??? check start not negative
       checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
 
       ImageFileImplSharedPtr destImageFile( destImageFile_ );
@@ -156,7 +154,8 @@ namespace e57
          throw E57_EXCEPTION2( ErrorNodeUnattached, "fileName=" + destImageFile->fileName() );
       }
 
-      if ( static_cast<uint64_t>( start ) + count > blobLogicalLength_ )
+      if ( start < 0 || count > blobLogicalLength_ ||
+           static_cast<uint64_t>( start ) > blobLogicalLength_ - count )
       {
          throw E57_EXCEPTION2( ErrorBadAPIArgument,
                                "this->pathName=" + this->pathName() +
-- 
2.43.0


From 6e7aeaf30cf65bd809f5cea4aa082f5d08036a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:19:27 +0000
Subject: [PATCH 13/63] fix: refuse to create blobs of negative size

A negative byte count was stored as a huge unsigned length. Depending on
the value the file allocation moved backwards, or the file was extended
without end.
---
 src/BlobNodeImpl.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/BlobNodeImpl.cpp b/src/BlobNodeImpl.cpp
index 00470a4..5500057 100644
--- a/src/BlobNodeImpl.cpp
+++ b/src/BlobNodeImpl.cpp
@@ -38,6 +38,11 @@ namespace e57
    {
       // don't checkImageFileOpen, NodeImpl() will do it
 
+      if ( byteCount < 0 )
+      {
+         throw E57_EXCEPTION2( ErrorBadAPIArgument, "byteCount=" + toString( byteCount ) );
+      }
+
       ImageFileImplSharedPtr imf( destImageFile );
 
       // This what caller thinks blob length is
-- 
2.43.0


From 675291d1ab1ec9884d7fbed48b1c3a93ff1c16f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:29:17 +0000
Subject: [PATCH 14/63] fix: check that the image file is open when using
 readers and writers

Using a reader or writer after its image file was closed or cancelled
dereferenced a null pointer, also when the writer was just destroyed.
Closing a reader or writer twice decremented the counts twice.
---
 src/CompressedVectorReaderImpl.cpp | 17 ++++++-----------
 src/CompressedVectorWriterImpl.cpp | 20 ++++++++++----------
 2 files changed, 16 insertions(+), 21 deletions(-)

diff --git a/src/CompressedVectorReaderImpl.cpp b/src/CompressedVectorReaderImpl.cpp
index 478a3e5..1f4dd02 100644
--- a/src/CompressedVectorReaderImpl.cpp
+++ b/src/CompressedVectorReaderImpl.cpp
@@ -574,33 +574,28 @@ namespace e57
 
    void CompressedVectorReaderImpl::close()
    {
-      // Before anything that can throw, decrement reader count
-      ImageFileImplSharedPtr imf( cVector_->destImageFile_ );
-      imf->decrReaderCount();
-
-      checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
-
       // No error if reader not open
       if ( !isOpen_ )
       {
          return;
       }
 
+      isOpen_ = false;
+
       // Destroy decoders
       channels_.clear();
 
       cache_.reset();
 
-      isOpen_ = false;
+      ImageFileImplSharedPtr imf( cVector_->destImageFile_ );
+      imf->decrReaderCount();
    }
 
    void CompressedVectorReaderImpl::checkImageFileOpen( const char *srcFileName, int srcLineNumber,
                                                         const char *srcFunctionName ) const
    {
-      // unimplemented...
-      E57_UNUSED( srcFileName );
-      E57_UNUSED( srcLineNumber );
-      E57_UNUSED( srcFunctionName );
+      ImageFileImplSharedPtr imf( cVector_->destImageFile_ );
+      imf->checkImageFileOpen( srcFileName, srcLineNumber, srcFunctionName );
    }
 
    void CompressedVectorReaderImpl::checkReaderOpen( const char *srcFileName, int srcLineNumber,
diff --git a/src/CompressedVectorWriterImpl.cpp b/src/CompressedVectorWriterImpl.cpp
index 6be904f..349151d 100644
--- a/src/CompressedVectorWriterImpl.cpp
+++ b/src/CompressedVectorWriterImpl.cpp
@@ -155,14 +155,9 @@ namespace e57
 #ifdef E57_VERBOSE
       std::cout << "CompressedVectorWriterImpl::close() called" << std::endl; //???
 #endif
-      ImageFileImplSharedPtr imf( cVector_->destImageFile_ );
-
-      // Before anything that can throw, decrement writer count
-      imf->decrWriterCount();
-
-      checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
       // don't call checkWriterOpen();
 
+      // No error if writer not open
       if ( !isOpen_ )
       {
          return;
@@ -172,6 +167,13 @@ namespace e57
       // try to close again.
       isOpen_ = false;
 
+      ImageFileImplSharedPtr imf( cVector_->destImageFile_ );
+
+      // Before anything that can throw, decrement writer count
+      imf->decrWriterCount();
+
+      checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
+
       // If have any data, write packet
       // Write all remaining ioBuffers and internal encoder register cache into
       // file. Know we are done when totalOutputAvailable() returns 0 after a
@@ -729,10 +731,8 @@ namespace e57
    void CompressedVectorWriterImpl::checkImageFileOpen( const char *srcFileName, int srcLineNumber,
                                                         const char *srcFunctionName ) const
    {
-      // unimplemented...
-      E57_UNUSED( srcFileName );
-      E57_UNUSED( srcLineNumber );
-      E57_UNUSED( srcFunctionName );
+      ImageFileImplSharedPtr imf( cVector_->destImageFile_ );
+      imf->checkImageFileOpen( srcFileName, srcLineNumber, srcFunctionName );
    }
 
    void CompressedVectorWriterImpl::checkWriterOpen( const char *srcFileName, int srcLineNumber,
-- 
2.43.0


From d3ed9b78d7c156c383ebe4f6161bc57ce4952c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:29:37 +0000
Subject: [PATCH 15/63] fix: refuse scaled values that have no raw value

Constructing a ScaledIntegerNode from a scaled value or bound outside of
the range of the raw integer converted it with undefined behaviour, which
silently stored another value.
---
 src/ScaledIntegerNodeImpl.cpp | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/ScaledIntegerNodeImpl.cpp b/src/ScaledIntegerNodeImpl.cpp
index 1c284b6..04f9dfd 100644
--- a/src/ScaledIntegerNodeImpl.cpp
+++ b/src/ScaledIntegerNodeImpl.cpp
@@ -33,6 +33,29 @@
 
 namespace e57
 {
+   namespace
+   {
+      // Throws if there is no raw value for the scaled value
+      int64_t toRaw( double scaledValue, double scale, double offset )
+      {
+         const double raw = std::floor( ( scaledValue - offset ) / scale + .5 );
+
+         // 2^63 is exactly representable as a double (INT64_MAX is not)
+         constexpr double limit = 9223372036854775808.0;
+
+         // Written so that it also catches NaN
+         if ( !( raw >= -limit && raw < limit ) )
+         {
+            throw E57_EXCEPTION2( ErrorScaledValueNotRepresentable,
+                                  "scaledValue=" + toString( scaledValue ) +
+                                     " scale=" + toString( scale ) +
+                                     " offset=" + toString( offset ) );
+         }
+
+         return static_cast<int64_t>( raw );
+      }
+   }
+
    ScaledIntegerNodeImpl::ScaledIntegerNodeImpl( ImageFileImplWeakPtr destImageFile,
                                                  int64_t rawValue, int64_t minimum, int64_t maximum,
                                                  double scale, double offset ) :
@@ -46,9 +69,9 @@ namespace e57
                                                  double scaledMaximum, double scale,
                                                  double offset ) :
       NodeImpl( destImageFile ),
-      value_( static_cast<int64_t>( std::floor( ( scaledValue - offset ) / scale + .5 ) ) ),
-      minimum_( static_cast<int64_t>( std::floor( ( scaledMinimum - offset ) / scale + .5 ) ) ),
-      maximum_( static_cast<int64_t>( std::floor( ( scaledMaximum - offset ) / scale + .5 ) ) ),
+      value_( toRaw( scaledValue, scale, offset ) ),
+      minimum_( toRaw( scaledMinimum, scale, offset ) ),
+      maximum_( toRaw( scaledMaximum, scale, offset ) ),
       scale_( scale ), offset_( offset )
    {
    }
-- 
2.43.0


From 0d2eda3b064649d9534a877fdd76a6efdbb32d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:29:39 +0000
Subject: [PATCH 16/63] fix: restore single precision elements exactly

Single precision values and bounds were written with one digit less than
needed, and were not rounded to single precision when constructed or
read. The largest float could not be read back at all.
---
 src/CheckedFile.cpp   | 4 ++--
 src/FloatNodeImpl.cpp | 5 +++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/CheckedFile.cpp b/src/CheckedFile.cpp
index 84222fc..56e5727 100644
--- a/src/CheckedFile.cpp
+++ b/src/CheckedFile.cpp
@@ -478,8 +478,8 @@ CheckedFile &CheckedFile::operator<<( uint64_t i )
 
 CheckedFile &CheckedFile::operator<<( float f )
 {
-   //??? is 7 digits right number?
-   return writeFloatingPoint( f, 7 );
+   // 9 significant digits (8 after the decimal point) are needed to restore any float exactly
+   return writeFloatingPoint( f, 8 );
 }
 
 CheckedFile &CheckedFile::operator<<( double d )
diff --git a/src/FloatNodeImpl.cpp b/src/FloatNodeImpl.cpp
index 0486354..89cbd84 100644
--- a/src/FloatNodeImpl.cpp
+++ b/src/FloatNodeImpl.cpp
@@ -40,6 +40,11 @@ namespace e57
       // are for double precision, adjust bounds smaller if single.
       if ( precision_ == PrecisionSingle )
       {
+         // Only what a single precision number can hold will be stored
+         value_ = static_cast<float>( value_ );
+         minimum_ = static_cast<float>( minimum_ );
+         maximum_ = static_cast<float>( maximum_ );
+
          if ( minimum_ < FLOAT_MIN )
          {
             minimum_ = FLOAT_MIN;
-- 
2.43.0


From ee3c3553b8d70dfc6471a96e198d835b7db67fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:33:56 +0000
Subject: [PATCH 17/63] fix: refuse floating point attributes that cannot be
 stored

NaN was accepted as the value of a FloatNode, infinities as bounds, and
either as scale or offset of a ScaledIntegerNode. Writing the XML section
then failed with an assertion or an exception other than E57Exception.
---
 src/FloatNodeImpl.cpp         | 13 ++++++++++++-
 src/ScaledIntegerNodeImpl.cpp |  8 ++++++++
 src/StringFunctions.cpp       |  7 +++++--
 3 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/FloatNodeImpl.cpp b/src/FloatNodeImpl.cpp
index 89cbd84..8d0882e 100644
--- a/src/FloatNodeImpl.cpp
+++ b/src/FloatNodeImpl.cpp
@@ -54,12 +54,23 @@ namespace e57
             maximum_ = FLOAT_MAX;
          }
       }
+
+      // Only finite numbers can be stored
+      if ( minimum_ < DOUBLE_MIN )
+      {
+         minimum_ = DOUBLE_MIN;
+      }
+      if ( maximum_ > DOUBLE_MAX )
+      {
+         maximum_ = DOUBLE_MAX;
+      }
    }
 
    // Throw an exception if the value is not within bounds.
    void FloatNodeImpl::validateValue() const
    {
-      if ( value_ < minimum_ || value_ > maximum_ )
+      // Written so that it also catches NaN
+      if ( !( value_ >= minimum_ && value_ <= maximum_ ) )
       {
          throw E57_EXCEPTION2( ErrorValueOutOfBounds, "this->pathName=" + this->pathName() +
                                                          " value=" + toString( value_ ) +
diff --git a/src/ScaledIntegerNodeImpl.cpp b/src/ScaledIntegerNodeImpl.cpp
index 04f9dfd..db2cd7c 100644
--- a/src/ScaledIntegerNodeImpl.cpp
+++ b/src/ScaledIntegerNodeImpl.cpp
@@ -79,6 +79,14 @@ namespace e57
    // Throw an exception if the value is not within bounds.
    void ScaledIntegerNodeImpl::validateValue() const
    {
+      // Only finite numbers can be stored
+      if ( !std::isfinite( scale_ ) || !std::isfinite( offset_ ) )
+      {
+         throw E57_EXCEPTION2( ErrorBadAPIArgument, "this->pathName=" + this->pathName() +
+                                                       " scale=" + toString( scale_ ) +
+                                                       " offset=" + toString( offset_ ) );
+      }
+
       if ( value_ < minimum_ || value_ > maximum_ )
       {
          throw E57_EXCEPTION2( ErrorValueOutOfBounds, "this->pathName=" + this->pathName() +
diff --git a/src/StringFunctions.cpp b/src/StringFunctions.cpp
index 056a4aa..48ba1f3 100644
--- a/src/StringFunctions.cpp
+++ b/src/StringFunctions.cpp
@@ -1,6 +1,5 @@
 #include "StringFunctions.h"
 
-#include <cassert>
 #include <locale>
 
 namespace e57
@@ -23,7 +22,11 @@ namespace e57
       // Split into mantissa and exponent
       // e.g. 1.23456000000000000e+005  ==> "1.23456000000000000" + "e+005"
       auto index = s.find_last_of( 'e' );
-      assert( index != std::string::npos ); // should not be possible
+      if ( index == std::string::npos )
+      {
+         // Infinity or NaN
+         return s;
+      }
 
       std::string mantissa = s.substr( 0, index );
       const std::string exponent = s.substr( index );
-- 
2.43.0


From 169efca6fe80e4d570356887398db6235a5a050b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:34:23 +0000
Subject: [PATCH 18/63] fix: keep carriage returns in string elements

XML parsers turn carriage returns into line feeds, unless they are written
as character references.
---
 src/StringNodeImpl.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/StringNodeImpl.cpp b/src/StringNodeImpl.cpp
index 8a2fd29..20aef4e 100644
--- a/src/StringNodeImpl.cpp
+++ b/src/StringNodeImpl.cpp
@@ -108,10 +108,20 @@ namespace e57
          size_t len = value_.length();
 
          // Loop, searching for occurrences of "]]>", which will be split across two CDATA
-         // directives
+         // directives, and of carriage returns, which XML parsers only keep if written as character
+         // references
          while ( currentPosition < len )
          {
             size_t found = value_.find( "]]>", currentPosition );
+            size_t foundCR = value_.find( '\r', currentPosition );
+
+            if ( foundCR < found )
+            {
+               cf << value_.substr( currentPosition, foundCR - currentPosition );
+               cf << "]]>&#13;<![CDATA[";
+               currentPosition = foundCR + 1;
+               continue;
+            }
 
             if ( found == std::string::npos )
             {
-- 
2.43.0


From 0251b8e3caceb62e687ce044dad2bfa488613480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:35:06 +0000
Subject: [PATCH 19/63] fix: refuse strings that cannot be stored in XML

A StringNode that is not valid UTF-8, or contains characters XML does not
allow, produced a file that could not be opened.
---
 src/StringNode.cpp     |  3 ++
 src/StringNodeImpl.cpp | 62 ++++++++++++++++++++++++++++++++++++++++++
 src/StringNodeImpl.h   |  2 ++
 3 files changed, 67 insertions(+)

diff --git a/src/StringNode.cpp b/src/StringNode.cpp
index 057b135..a6b3cc8 100644
--- a/src/StringNode.cpp
+++ b/src/StringNode.cpp
@@ -102,7 +102,9 @@ If the StringNode is to be used in a CompressedVectorNode prototype, it is recom
 @pre The @a destImageFile must be open (i.e. destImageFile.isOpen() must be true).
 @pre The @a destImageFile must have been opened in write mode (i.e. destImageFile.isWritable() must
 be true).
+@pre The @a value must be valid UTF-8 and contain only characters that are allowed in XML.
 
+@throw ::ErrorBadAPIArgument (n/c)
 @throw ::ErrorImageFileNotOpen (n/c)
 @throw ::ErrorFileReadOnly (n/c)
 @throw ::ErrorInternal All objects in undocumented state
@@ -112,6 +114,7 @@ be true).
 StringNode::StringNode( const ImageFile &destImageFile, const ustring &value ) :
    impl_( new StringNodeImpl( destImageFile.impl(), value ) )
 {
+   impl_->validateValue();
 }
 
 /*!
diff --git a/src/StringNodeImpl.cpp b/src/StringNodeImpl.cpp
index 20aef4e..3b4cead 100644
--- a/src/StringNodeImpl.cpp
+++ b/src/StringNodeImpl.cpp
@@ -31,12 +31,74 @@
 
 namespace e57
 {
+   namespace
+   {
+      // Is the string valid UTF-8 and does it contain only characters that XML allows?
+      bool isXmlText( const ustring &str )
+      {
+         size_t i = 0;
+         while ( i < str.length() )
+         {
+            const auto lead = static_cast<unsigned char>( str[i++] );
+            if ( lead < 0x80 )
+            {
+               if ( lead < 0x20 && lead != '\t' && lead != '\n' && lead != '\r' )
+               {
+                  return false;
+               }
+               continue;
+            }
+
+            if ( lead < 0xC2 || lead > 0xF4 )
+            {
+               return false;
+            }
+
+            const size_t trailCount = ( lead < 0xE0 ) ? 1 : ( lead < 0xF0 ) ? 2 : 3;
+            if ( trailCount > str.length() - i )
+            {
+               return false;
+            }
+
+            uint32_t c = lead & ( 0x3FU >> trailCount );
+            for ( size_t j = 0; j < trailCount; j++ )
+            {
+               const auto trail = static_cast<unsigned char>( str[i++] );
+               if ( ( trail & 0xC0 ) != 0x80 )
+               {
+                  return false;
+               }
+               c = ( c << 6 ) | ( trail & 0x3FU );
+            }
+
+            constexpr uint32_t cSmallest[] = { 0, 0x80, 0x800, 0x10000 };
+            if ( c < cSmallest[trailCount] || c > 0x10FFFF || ( c >= 0xD800 && c <= 0xDFFF ) ||
+                 c == 0xFFFE || c == 0xFFFF )
+            {
+               return false;
+            }
+         }
+
+         return true;
+      }
+   }
+
    StringNodeImpl::StringNodeImpl( ImageFileImplWeakPtr destImageFile, const ustring &value ) :
       NodeImpl( destImageFile ), value_( value )
    {
       // don't checkImageFileOpen, NodeImpl() will do it
    }
 
+   // Throw an exception if the value can't be stored.
+   void StringNodeImpl::validateValue() const
+   {
+      if ( !isXmlText( value_ ) )
+      {
+         throw E57_EXCEPTION2( ErrorBadAPIArgument,
+                               "this->pathName=" + this->pathName() + " value=" + value_ );
+      }
+   }
+
    bool StringNodeImpl::isTypeEquivalent( NodeImplSharedPtr ni )
    {
       // don't checkImageFileOpen
diff --git a/src/StringNodeImpl.h b/src/StringNodeImpl.h
index b361308..12b803f 100644
--- a/src/StringNodeImpl.h
+++ b/src/StringNodeImpl.h
@@ -41,6 +41,8 @@ namespace e57
          return TypeString;
       }
 
+      void validateValue() const;
+
       bool isTypeEquivalent( NodeImplSharedPtr ni ) override;
       bool isDefined( const ustring &pathName ) override;
 
-- 
2.43.0


From 48e514928773b06e1446dd613585b65dc321b9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:37:13 +0000
Subject: [PATCH 20/63] fix: refuse element names that are not XML names

Names that are not valid UTF-8, contain other characters XML does not allow
in names, or have a local part that does not start like a name, produced a
file that could not be opened.
---
 src/ImageFileImpl.cpp   | 79 ++++++++++++++++++++++++++++-------------
 src/StringFunctions.cpp | 37 +++++++++++++++++++
 src/StringFunctions.h   |  4 +++
 src/StringNodeImpl.cpp  | 36 ++-----------------
 4 files changed, 97 insertions(+), 59 deletions(-)

diff --git a/src/ImageFileImpl.cpp b/src/ImageFileImpl.cpp
index 684acb1..29563e6 100644
--- a/src/ImageFileImpl.cpp
+++ b/src/ImageFileImpl.cpp
@@ -25,6 +25,9 @@
  * DEALINGS IN THE SOFTWARE.
  */
 
+#include <algorithm>
+#include <iterator>
+
 #include "ImageFileImpl.h"
 #include "ASTMVersion.h"
 #include "CheckedFile.h"
@@ -34,6 +37,51 @@
 
 namespace e57
 {
+   namespace
+   {
+      // Is the string a name that doesn't have a colon, as defined by XML?
+      bool isXmlName( const ustring &str )
+      {
+         struct Range
+         {
+            uint32_t first;
+            uint32_t last;
+         };
+         static constexpr Range cStart[] = {
+            { 'A', 'Z' },         { '_', '_' },         { 'a', 'z' },         { 0xC0, 0xD6 },
+            { 0xD8, 0xF6 },       { 0xF8, 0x2FF },      { 0x370, 0x37D },     { 0x37F, 0x1FFF },
+            { 0x200C, 0x200D },   { 0x2070, 0x218F },   { 0x2C00, 0x2FEF },   { 0x3001, 0xD7FF },
+            { 0xF900, 0xFDCF },   { 0xFDF0, 0xFFFD },   { 0x10000, 0xEFFFF }
+         };
+         static constexpr Range cFollowing[] = { { '-', '.' },
+                                                 { '0', '9' },
+                                                 { 0xB7, 0xB7 },
+                                                 { 0x300, 0x36F },
+                                                 { 0x203F, 0x2040 } };
+
+         size_t i = 0;
+         while ( i < str.length() )
+         {
+            const bool isFirst = ( i == 0 );
+            uint32_t c = 0;
+            if ( !nextCodePoint( str, i, c ) )
+            {
+               return false;
+            }
+
+            auto contains = [c]( const Range &r ) { return r.first <= c && c <= r.last; };
+            if ( std::none_of( std::begin( cStart ), std::end( cStart ), contains ) &&
+                 ( isFirst ||
+                   std::none_of( std::begin( cFollowing ), std::end( cFollowing ), contains ) ) )
+            {
+               return false;
+            }
+         }
+
+         return !str.empty();
+      }
+   }
+
    struct NameSpace
    {
       ustring prefix;
@@ -677,8 +725,6 @@ namespace e57
    {
       // no checkImageFileOpen(__FILE__, __LINE__, __FUNCTION__)
 
-      //??? check if elementName is good UTF-8?
-
       size_t len = elementName.length();
 
       // Empty name is bad
@@ -706,27 +752,6 @@ namespace e57
          return;
       }
 
-      // If first char is ASCII (< 128), check for legality
-      // Don't test any part of a multi-byte code point sequence (c >= 128).
-      // Don't allow ':' as first char.
-      if ( c < 128 && !( ( 'a' <= c && c <= 'z' ) || ( 'A' <= c && c <= 'Z' ) || c == '_' ) )
-      {
-         throw E57_EXCEPTION2( ErrorPathNameMalformed, "elementName=" + elementName );
-      }
-
-      // If each following char is ASCII (<128), check for legality
-      // Don't test any part of a multi-byte code point sequence (c >= 128).
-      for ( size_t i = 1; i < len; i++ )
-      {
-         c = elementName[i];
-
-         if ( c < 128 && !( ( 'a' <= c && c <= 'z' ) || ( 'A' <= c && c <= 'Z' ) || c == '_' ||
-                            c == ':' || ( '0' <= c && c <= '9' ) || c == '-' || c == '.' ) )
-         {
-            throw E57_EXCEPTION2( ErrorPathNameMalformed, "elementName=" + elementName );
-         }
-      }
-
       // Check if has at least one colon, try to split it into prefix & localPart
       size_t found = elementName.find_first_of( ':' );
 
@@ -739,11 +764,10 @@ namespace e57
          }
 
          // Split element name at the colon
-         // ??? split before check first/subsequent char legal?
          prefix = elementName.substr( 0, found );
          localPart = elementName.substr( found + 1 );
 
-         if ( prefix.length() == 0 || localPart.length() == 0 )
+         if ( !isXmlName( prefix ) || !isXmlName( localPart ) )
          {
             throw E57_EXCEPTION2( ErrorPathNameMalformed, "elementName=" + elementName +
                                                              " prefix=" + prefix +
@@ -752,6 +776,11 @@ namespace e57
       }
       else
       {
+         if ( !isXmlName( elementName ) )
+         {
+            throw E57_EXCEPTION2( ErrorPathNameMalformed, "elementName=" + elementName );
+         }
+
          prefix = "";
          localPart = elementName;
       }
diff --git a/src/StringFunctions.cpp b/src/StringFunctions.cpp
index 48ba1f3..d2530af 100644
--- a/src/StringFunctions.cpp
+++ b/src/StringFunctions.cpp
@@ -73,4 +73,41 @@ namespace e57
       return res;
    }
 
+   bool nextCodePoint( const std::string &str, size_t &pos, uint32_t &codePoint )
+   {
+      const auto lead = static_cast<unsigned char>( str[pos++] );
+      if ( lead < 0x80 )
+      {
+         codePoint = lead;
+         return true;
+      }
+
+      if ( lead < 0xC2 || lead > 0xF4 )
+      {
+         return false;
+      }
+
+      const size_t trailCount = ( lead < 0xE0 ) ? 1 : ( lead < 0xF0 ) ? 2 : 3;
+      if ( trailCount > str.length() - pos )
+      {
+         return false;
+      }
+
+      codePoint = lead & ( 0x3FU >> trailCount );
+      for ( size_t i = 0; i < trailCount; i++ )
+      {
+         const auto trail = static_cast<unsigned char>( str[pos++] );
+         if ( ( trail & 0xC0 ) != 0x80 )
+         {
+            return false;
+         }
+         codePoint = ( codePoint << 6 ) | ( trail & 0x3FU );
+      }
+
+      // Check not overlong, not too large, not a surrogate
+      constexpr uint32_t cSmallest[] = { 0, 0x80, 0x800, 0x10000 };
+      return codePoint >= cSmallest[trailCount] && codePoint <= 0x10FFFF &&
+             ( codePoint < 0xD800 || codePoint > 0xDFFF );
+   }
+
 }
diff --git a/src/StringFunctions.h b/src/StringFunctions.h
index b40b119..a2c08be 100644
--- a/src/StringFunctions.h
+++ b/src/StringFunctions.h
@@ -203,4 +203,8 @@ namespace e57
    /// Parse a double according the the classic ("C") locale.
    /// @return The parsed double or 0.0 on error.
    double strToDouble( const std::string &inStr );
+
+   /// Get the code point that starts at a position in a UTF-8 string and move on to the next one.
+   /// @return false if the string is not valid UTF-8 there.
+   bool nextCodePoint( const std::string &str, size_t &pos, uint32_t &codePoint );
 }
diff --git a/src/StringNodeImpl.cpp b/src/StringNodeImpl.cpp
index 3b4cead..f169dc1 100644
--- a/src/StringNodeImpl.cpp
+++ b/src/StringNodeImpl.cpp
@@ -39,40 +39,8 @@ namespace e57
          size_t i = 0;
          while ( i < str.length() )
          {
-            const auto lead = static_cast<unsigned char>( str[i++] );
-            if ( lead < 0x80 )
-            {
-               if ( lead < 0x20 && lead != '\t' && lead != '\n' && lead != '\r' )
-               {
-                  return false;
-               }
-               continue;
-            }
-
-            if ( lead < 0xC2 || lead > 0xF4 )
-            {
-               return false;
-            }
-
-            const size_t trailCount = ( lead < 0xE0 ) ? 1 : ( lead < 0xF0 ) ? 2 : 3;
-            if ( trailCount > str.length() - i )
-            {
-               return false;
-            }
-
-            uint32_t c = lead & ( 0x3FU >> trailCount );
-            for ( size_t j = 0; j < trailCount; j++ )
-            {
-               const auto trail = static_cast<unsigned char>( str[i++] );
-               if ( ( trail & 0xC0 ) != 0x80 )
-               {
-                  return false;
-               }
-               c = ( c << 6 ) | ( trail & 0x3FU );
-            }
-
-            constexpr uint32_t cSmallest[] = { 0, 0x80, 0x800, 0x10000 };
-            if ( c < cSmallest[trailCount] || c > 0x10FFFF || ( c >= 0xD800 && c <= 0xDFFF ) ||
+            uint32_t c = 0;
+            if ( !nextCodePoint( str, i, c ) || ( c < 0x20 && c != '\t' && c != '\n' && c != '\r' ) ||
                  c == 0xFFFE || c == 0xFFFF )
             {
                return false;
-- 
2.43.0


From 399d4fccf3a7600fc0e99c611391d29bcde8ce3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:58:45 +0000
Subject: [PATCH 21/63] fix: apply all rules for children to elements set by
 path

StructureNode::set() with a path skipped rules that VectorNode::append()
enforces. A child of a vector could get any name or index and did not have
to match its siblings. An element of another file was accepted. A name
that is a number or empty was accepted in a structure, and the file could
not be read again.
---
 src/StructureNodeImpl.cpp | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/src/StructureNodeImpl.cpp b/src/StructureNodeImpl.cpp
index e64f7e9..fe15ec4 100644
--- a/src/StructureNodeImpl.cpp
+++ b/src/StructureNodeImpl.cpp
@@ -332,7 +332,42 @@ void StructureNodeImpl::set( const std::vector<ustring> &fields, unsigned level,
    if ( level == fields.size() - 1 )
    {
       // At bottom, so append node at end of children
-      ni->setParent( shared_from_this(), fields.at( level ) );
+      const ustring &name = fields.at( level );
+
+      const bool isIndex =
+         !name.empty() && ( name.find_first_not_of( "0123456789" ) == ustring::npos );
+
+      // The children of a vector are named by their index, all other names can't be numbers
+      if ( name.empty() || isIndex != ( type() == TypeVector ) )
+      {
+         throw E57_EXCEPTION2( ErrorPathNameMalformed,
+                               "this->pathName=" + this->pathName() + " element=" + name );
+      }
+
+      if ( isIndex )
+      {
+         // Only the next child can be set
+         if ( name != toString( children_.size() ) )
+         {
+            throw E57_EXCEPTION2( ErrorPathNameMalformed,
+                                  "this->pathName=" + this->pathName() + " element=" + name );
+         }
+
+         append( ni );
+         return;
+      }
+
+      // Verify that child is destined for same ImageFile as this is
+      ImageFileImplSharedPtr thisDest( destImageFile() );
+      ImageFileImplSharedPtr niDest( ni->destImageFile() );
+      if ( thisDest != niDest )
+      {
+         throw E57_EXCEPTION2( ErrorDifferentDestImageFile,
+                               "this->destImageFile" + thisDest->fileName() +
+                                  " ni->destImageFile" + niDest->fileName() );
+      }
+
+      ni->setParent( shared_from_this(), name );
       children_.push_back( ni );
    }
    else
-- 
2.43.0


From 170eef67479fa55aef2e5df10c976422d1c1ed6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:59:06 +0000
Subject: [PATCH 22/63] fix: refuse to put an element below itself

Adding an unattached element to itself, or to one of its descendents, was
accepted. Every later walk through the tree then never ended.
---
 src/NodeImpl.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/NodeImpl.cpp b/src/NodeImpl.cpp
index 12c69c4..5e2a96e 100644
--- a/src/NodeImpl.cpp
+++ b/src/NodeImpl.cpp
@@ -175,6 +175,14 @@ void NodeImpl::setParent( NodeImplSharedPtr parent, const ustring &elementName )
                                " newParent->pathName=" + parent->pathName() );
    }
 
+   // A node can't become a child of itself, or of one of its descendents
+   if ( parent->getRoot() == shared_from_this() )
+   {
+      throw E57_EXCEPTION2( ErrorAlreadyHasParent,
+                            "this->pathName=" + this->pathName() +
+                               " newParent->pathName=" + parent->pathName() );
+   }
+
    parent_ = parent;
    elementName_ = elementName;
 
-- 
2.43.0


From e40827b801879e6da32b6082bb578a3a57da1246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:59:19 +0000
Subject: [PATCH 23/63] fix: refuse to add elements to a file opened for
 reading

StructureNode::set() and VectorNode::append() changed the element tree in
memory instead of reporting ErrorFileReadOnly, as documented.
---
 src/StructureNode.cpp | 8 ++++++++
 src/VectorNode.cpp    | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/StructureNode.cpp b/src/StructureNode.cpp
index c01a9ef..4ec445a 100644
--- a/src/StructureNode.cpp
+++ b/src/StructureNode.cpp
@@ -29,6 +29,7 @@
 
 /// @file StructureNode.cpp
 
+#include "ImageFileImpl.h"
 #include "StringFunctions.h"
 #include "StructureNodeImpl.h"
 
@@ -352,6 +353,13 @@ destImageFile() == n.destImageFile()).
 */
 void StructureNode::set( const ustring &pathName, const Node &n )
 {
+   impl_->checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
+
+   if ( !impl_->destImageFile()->isWriter() )
+   {
+      throw E57_EXCEPTION2( ErrorFileReadOnly, "fileName=" + impl_->imageFileName() );
+   }
+
    impl_->set( pathName, n.impl(), false );
 }
 
diff --git a/src/VectorNode.cpp b/src/VectorNode.cpp
index 8ba5ab5..c093d14 100644
--- a/src/VectorNode.cpp
+++ b/src/VectorNode.cpp
@@ -29,6 +29,7 @@
 
 /// @file VectorNode.cpp
 
+#include "ImageFileImpl.h"
 #include "StringFunctions.h"
 #include "VectorNodeImpl.h"
 
@@ -380,6 +381,13 @@ destImageFile().isWritable()).
 */
 void VectorNode::append( const Node &n )
 {
+   impl_->checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
+
+   if ( !impl_->destImageFile()->isWriter() )
+   {
+      throw E57_EXCEPTION2( ErrorFileReadOnly, "fileName=" + impl_->imageFileName() );
+   }
+
    impl_->append( n.impl() );
 }
 
-- 
2.43.0


From a2abe0087e3606d6981d9d1d874326a7a59db02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:59:55 +0000
Subject: [PATCH 24/63] fix: refuse prototypes that are not allowed

A prototype with a BlobNode or a CompressedVectorNode in it, and the root
of the file, were accepted by CompressedVectorNode(). Closing the file then
wrote an invalid one or did not end.
---
 src/CompressedVectorNodeImpl.cpp | 46 +++++++++++++++++++++++++++++---
 1 file changed, 43 insertions(+), 3 deletions(-)

diff --git a/src/CompressedVectorNodeImpl.cpp b/src/CompressedVectorNodeImpl.cpp
index 63ae31c..28266d3 100644
--- a/src/CompressedVectorNodeImpl.cpp
+++ b/src/CompressedVectorNodeImpl.cpp
@@ -35,6 +35,36 @@
 
 namespace e57
 {
+   namespace
+   {
+      // BlobNodes and CompressedVectorNodes can't be part of a prototype
+      bool isAllowedInPrototype( const NodeImplSharedPtr &node )
+      {
+         switch ( node->type() )
+         {
+            case TypeBlob:
+            case TypeCompressedVector:
+               return false;
+            case TypeStructure:
+            case TypeVector:
+            {
+               auto structure = std::static_pointer_cast<StructureNodeImpl>( node );
+
+               for ( int64_t i = 0; i < structure->childCount(); i++ )
+               {
+                  if ( !isAllowedInPrototype( structure->get( i ) ) )
+                  {
+                     return false;
+                  }
+               }
+               return true;
+            }
+            default:
+               return true;
+         }
+      }
+   }
+
    CompressedVectorNodeImpl::CompressedVectorNodeImpl( ImageFileImplWeakPtr destImageFile ) :
       NodeImpl( destImageFile )
    {
@@ -45,9 +75,6 @@ namespace e57
    {
       // don't checkImageFileOpen, ctor did it
 
-      //??? check ok for proto, no Blob CompressedVector, empty?
-      //??? throw E57_EXCEPTION2(ErrorBadPrototype)
-
       // Can't set prototype twice.
       if ( prototype_ )
       {
@@ -72,6 +99,19 @@ namespace e57
                                   " prototype->destImageFile" + prototypeDest->fileName() );
       }
 
+      // The root of the ImageFile can't be a prototype
+      if ( prototype == thisDest->root() )
+      {
+         throw E57_EXCEPTION2( ErrorAlreadyHasParent,
+                               "this->pathName=" + this->pathName() +
+                                  " prototype->pathName=" + prototype->pathName() );
+      }
+
+      if ( !isAllowedInPrototype( prototype ) )
+      {
+         throw E57_EXCEPTION2( ErrorBadPrototype, "this->pathName=" + this->pathName() );
+      }
+
       // !!! check for incomplete CompressedVectors when closing file
       prototype_ = prototype;
 
-- 
2.43.0


From 2b3fa317aa4b0033ff3a036dffc0392362e267cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:00:27 +0000
Subject: [PATCH 25/63] fix: keep prototype and codecs of a compressed vector
 unchanged

Elements could be added to a prototype after its CompressedVectorNode was
created, so that the records and their description did not match. An
unattached prototype could also be put somewhere else in the tree.
---
 src/CompressedVectorNodeImpl.cpp | 2 ++
 src/NodeImpl.cpp                 | 8 ++++----
 src/NodeImpl.h                   | 7 +++++++
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/CompressedVectorNodeImpl.cpp b/src/CompressedVectorNodeImpl.cpp
index 28266d3..b8c32ab 100644
--- a/src/CompressedVectorNodeImpl.cpp
+++ b/src/CompressedVectorNodeImpl.cpp
@@ -114,6 +114,7 @@ namespace e57
 
       // !!! check for incomplete CompressedVectors when closing file
       prototype_ = prototype;
+      prototype_->setCompressedVector( shared_from_this() );
 
       // Note that prototype is not attached to CompressedVector in a parent/child
       // relationship. This means that prototype is a root node (has no parent).
@@ -158,6 +159,7 @@ namespace e57
       }
 
       codecs_ = codecs;
+      codecs_->setCompressedVector( shared_from_this() );
 
       // Note that codecs is not attached to CompressedVector in a parent/child
       // relationship. This means that codecs is a root node (has no parent).
diff --git a/src/NodeImpl.cpp b/src/NodeImpl.cpp
index 5e2a96e..bf224ac 100644
--- a/src/NodeImpl.cpp
+++ b/src/NodeImpl.cpp
@@ -165,8 +165,7 @@ void NodeImpl::setParent( NodeImplSharedPtr parent, const ustring &elementName )
    //    1) if user attempts to use the ImageFile root as a child (e.g.
    //    root.set("x", root)) 2) if user attempts to reuse codecs or prototype
    //    trees of a CompressedVectorNode
-   //       ??? what if CV not attached yet?
-   if ( !parent_.expired() || isAttached_ )
+   if ( !parent_.expired() || isAttached_ || !compressedVector_.expired() )
    {
       // ??? does caller do setParent first, so state is not messed up when
       // throw?
@@ -241,8 +240,9 @@ bool NodeImpl::isTypeConstrained()
       }
    }
    // Didn't find any constraining VECTORs or COMPRESSED_VECTORs in path above us, so our type is
-   // not constrained.
-   return ( false );
+   // not constrained unless we are in the prototype or codecs of a COMPRESSED_VECTOR, which have no
+   // parent.
+   return !p->compressedVector_.expired();
 }
 
 NodeImplSharedPtr NodeImpl::get( const ustring &pathName )
diff --git a/src/NodeImpl.h b/src/NodeImpl.h
index dc61c5d..8244863 100644
--- a/src/NodeImpl.h
+++ b/src/NodeImpl.h
@@ -57,6 +57,12 @@ namespace e57
       void setParent( NodeImplSharedPtr parent, const ustring &elementName );
       bool isTypeConstrained();
 
+      // Note which CompressedVector this node is the prototype or codecs of
+      void setCompressedVector( const NodeImplSharedPtr &compressedVector )
+      {
+         compressedVector_ = compressedVector;
+      }
+
       virtual NodeImplSharedPtr get( const ustring &pathName );
       virtual void set( const ustring &pathName, NodeImplSharedPtr ni,
                         bool autoPathCreate = false );
@@ -100,6 +106,7 @@ namespace e57
 
       ImageFileImplWeakPtr destImageFile_;
       NodeImplWeakPtr parent_;
+      NodeImplWeakPtr compressedVector_;
       ustring elementName_;
       bool isAttached_;
    };
-- 
2.43.0


From 59b7b7c23d0a4a09fa8c0013f5bf2142070f4a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:11:05 +0000
Subject: [PATCH 26/63] fix: report pages that were written only partly

A write() that stored fewer bytes than asked, for example on a full disk,
was taken as success and left a damaged file behind.
---
 src/CheckedFile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CheckedFile.cpp b/src/CheckedFile.cpp
index 56e5727..8d78b9f 100644
--- a/src/CheckedFile.cpp
+++ b/src/CheckedFile.cpp
@@ -821,7 +821,7 @@ void CheckedFile::writePhysicalPage( char *page_buffer, uint64_t page )
 #error "no supported compiler defined"
 #endif
 
-   if ( result < 0 )
+   if ( result < 0 || static_cast<size_t>( result ) != physicalPageSize )
    {
       throw E57_EXCEPTION2( ErrorWriteFailed,
                             "fileName=" + fileName_ + " result=" + toString( result ) );
-- 
2.43.0


From 80324809e991e7be7e87d4293b855f5cd4c2af8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:11:11 +0000
Subject: [PATCH 27/63] fix: do not use a descriptor again after closing it
 failed

The descriptor was closed a second time, when it could already belong to
another file. Cancelling a file did not remove it when close failed.
---
 src/CheckedFile.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/CheckedFile.cpp b/src/CheckedFile.cpp
index 8d78b9f..294c336 100644
--- a/src/CheckedFile.cpp
+++ b/src/CheckedFile.cpp
@@ -695,13 +695,14 @@ void CheckedFile::close()
 #else
 #error "no supported compiler defined"
 #endif
+      // The descriptor can't be used any more, even if closing it failed
+      fd_ = -1;
+
       if ( result < 0 )
       {
          throw E57_EXCEPTION2( ErrorCloseFailed,
                                "fileName=" + fileName_ + " result=" + toString( result ) );
       }
-
-      fd_ = -1;
    }
 
    if ( bufView_ != nullptr )
@@ -716,7 +717,14 @@ void CheckedFile::close()
 
 void CheckedFile::unlink()
 {
-   close();
+   // The file is removed even if closing it fails
+   try
+   {
+      close();
+   }
+   catch ( const E57Exception & )
+   {
+   }
 
    // Try to remove the file, don't report a failure
    int result = std::remove( fileName_.c_str() ); //??? unicode support here
-- 
2.43.0


From aa32597f14833fc97515431017b3c2da43239695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:11:18 +0000
Subject: [PATCH 28/63] fix: do not end the process when closing fails in a
 destructor

The destructors of the Simple API's reader and writer close the file. An
error while doing so left the destructor and called std::terminate().
---
 src/ReaderImpl.cpp | 11 +++++++++--
 src/WriterImpl.cpp | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/ReaderImpl.cpp b/src/ReaderImpl.cpp
index 37bfbe8..11b9144 100644
--- a/src/ReaderImpl.cpp
+++ b/src/ReaderImpl.cpp
@@ -200,9 +200,16 @@ namespace e57
 
    ReaderImpl::~ReaderImpl()
    {
-      if ( IsOpen() )
+      // Don't allow any exceptions to propagate to caller (because in dtor)
+      try
+      {
+         if ( IsOpen() )
+         {
+            Close();
+         }
+      }
+      catch ( ... )
       {
-         Close();
       }
    }
 
diff --git a/src/WriterImpl.cpp b/src/WriterImpl.cpp
index e6f4914..2c0bdaf 100644
--- a/src/WriterImpl.cpp
+++ b/src/WriterImpl.cpp
@@ -175,9 +175,16 @@ namespace e57
 
    WriterImpl::~WriterImpl()
    {
-      if ( IsOpen() )
+      // Don't allow any exceptions to propagate to caller (because in dtor)
+      try
+      {
+         if ( IsOpen() )
+         {
+            Close();
+         }
+      }
+      catch ( ... )
       {
-         Close();
       }
    }
 
-- 
2.43.0


From 19a13a77f17a07b49617fba86ba9a994635065b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:17:22 +0000
Subject: [PATCH 29/63] fix: close the file when opening it for reading fails

A file whose length is not a multiple of the page size, or whose length
could not be found out, stayed open until the process ended.
---
 src/CheckedFile.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/CheckedFile.cpp b/src/CheckedFile.cpp
index 294c336..6a33afe 100644
--- a/src/CheckedFile.cpp
+++ b/src/CheckedFile.cpp
@@ -208,16 +208,25 @@ CheckedFile::CheckedFile( const ustring &fileName, Mode mode, ReadChecksumPolicy
 
          readOnly_ = true;
 
-         physicalLength_ = lseek64( 0LL, SEEK_END );
+         try
+         {
+            physicalLength_ = lseek64( 0LL, SEEK_END );
+
+            if ( physicalLength_ % 1024 != 0 )
+            {
+               throw E57_EXCEPTION2( ErrorBadInputDataSize,
+                                     "file length is " + toString( physicalLength_ ) + " bytes" );
+            }
 
-         if ( physicalLength_ % 1024 != 0 )
+            lseek64( 0, SEEK_SET );
+         }
+         catch ( ... )
          {
-            throw E57_EXCEPTION2( ErrorBadInputDataSize,
-                                  "file length is " + toString( physicalLength_ ) + " bytes" );
+            // The destructor isn't called when the constructor throws
+            close();
+            throw;
          }
 
-         lseek64( 0, SEEK_SET );
-
          logicalLength_ = physicalToLogical( physicalLength_ );
       }
       break;
-- 
2.43.0


From 0c2bc7ff809debaeca514a32ee77101d51c3553f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:13 +0000
Subject: [PATCH 30/63] fix: do not continue reading records after a failed
 read

After an error the fields of a vector may have stopped at different
records. The next read() then skipped records, mixed fields of different
records or returned zero records. It is now refused.
---
 src/CompressedVectorReaderImpl.cpp | 14 ++++++++++++++
 src/CompressedVectorReaderImpl.h   |  1 +
 2 files changed, 15 insertions(+)

diff --git a/src/CompressedVectorReaderImpl.cpp b/src/CompressedVectorReaderImpl.cpp
index 1f4dd02..086926f 100644
--- a/src/CompressedVectorReaderImpl.cpp
+++ b/src/CompressedVectorReaderImpl.cpp
@@ -252,6 +252,20 @@ namespace e57
       checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
       checkReaderOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
 
+      try
+      {
+         return readRecords();
+      }
+      catch ( ... )
+      {
+         // The channels may have stopped at different records, so can't continue from here
+         close();
+         throw;
+      }
+   }
+
+   unsigned CompressedVectorReaderImpl::readRecords()
+   {
       // Rewind all dbufs so start writing to them at beginning
       for ( auto &dbuf : dbufs_ )
       {
diff --git a/src/CompressedVectorReaderImpl.h b/src/CompressedVectorReaderImpl.h
index 65aa8b8..5d46029 100644
--- a/src/CompressedVectorReaderImpl.h
+++ b/src/CompressedVectorReaderImpl.h
@@ -57,6 +57,7 @@ namespace e57
       void checkReaderOpen( const char *srcFileName, int srcLineNumber,
                             const char *srcFunctionName ) const;
       void setBuffers( std::vector<SourceDestBuffer> &dbufs ); //???needed?
+      unsigned readRecords();
       uint64_t earliestPacketNeededForInput() const;
 
       DataPacket *dataPacket( uint64_t inLogicalOffset ) const;
-- 
2.43.0


From 866c147c091fa0baf5ca8a976cfeeea08d1666fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:08 +0000
Subject: [PATCH 31/63] fix: free the XML input stream when reading it fails

Exceptions other than its own make Xerces lose the stream it reads from.
Errors of the file are now kept until the parser has returned.
---
 src/E57XmlParser.cpp | 47 ++++++++++++++++++++++++++++++++++++--------
 src/E57XmlParser.h   |  8 +++++++-
 2 files changed, 46 insertions(+), 9 deletions(-)

diff --git a/src/E57XmlParser.cpp b/src/E57XmlParser.cpp
index 101f470..51e0f8c 100644
--- a/src/E57XmlParser.cpp
+++ b/src/E57XmlParser.cpp
@@ -127,7 +127,8 @@ namespace
 class E57FileInputStream : public BinInputStream
 {
 public:
-   E57FileInputStream( CheckedFile *cf, uint64_t logicalStart, uint64_t logicalLength );
+   E57FileInputStream( CheckedFile *cf, uint64_t logicalStart, uint64_t logicalLength,
+                       std::exception_ptr &error );
    ~E57FileInputStream() override = default;
 
    E57FileInputStream( const E57FileInputStream & ) = delete;
@@ -151,12 +152,13 @@ private:
    uint64_t logicalStart_;
    uint64_t logicalLength_;
    uint64_t logicalPosition_;
+   std::exception_ptr &error_;
 };
 
 E57FileInputStream::E57FileInputStream( CheckedFile *cf, uint64_t logicalStart,
-                                        uint64_t logicalLength ) :
+                                        uint64_t logicalLength, std::exception_ptr &error ) :
    cf_( cf ), logicalStart_( logicalStart ), logicalLength_( logicalLength ),
-   logicalPosition_( logicalStart )
+   logicalPosition_( logicalStart ), error_( error )
 {
 }
 
@@ -205,8 +207,19 @@ XMLSize_t E57FileInputStream::readBytes( XMLByte *const toFill, const XMLSize_t
 
    size_t readCount = std::min( maxToRead_size, available_size );
 
-   cf_->seek( logicalPosition_ );
-   cf_->read( reinterpret_cast<char *>( toFill ), readCount ); //??? cast ok?
+   // Xerces isn't prepared for other exceptions here (it would not free this stream), so end the
+   // input and let E57XmlParser::parse() report the error.
+   try
+   {
+      cf_->seek( logicalPosition_ );
+      cf_->read( reinterpret_cast<char *>( toFill ), readCount ); //??? cast ok?
+   }
+   catch ( ... )
+   {
+      error_ = std::current_exception();
+      return ( 0 );
+   }
+
    logicalPosition_ += readCount;
    return ( readCount );
 }
@@ -225,7 +238,15 @@ E57XmlFileInputSource::E57XmlFileInputSource( CheckedFile *cf, uint64_t logicalS
 
 BinInputStream *E57XmlFileInputSource::makeStream() const
 {
-   return new E57FileInputStream( cf_, logicalStart_, logicalLength_ );
+   return new E57FileInputStream( cf_, logicalStart_, logicalLength_, error_ );
+}
+
+void E57XmlFileInputSource::rethrowError() const
+{
+   if ( error_ )
+   {
+      std::rethrow_exception( error_ );
+   }
 }
 
 //=============================================================================
@@ -315,9 +336,19 @@ void E57XmlParser::init()
    xmlReader->setErrorHandler( this );
 }
 
-void E57XmlParser::parse( InputSource &inputSource )
+void E57XmlParser::parse( E57XmlFileInputSource &inputSource )
 {
-   xmlReader->parse( inputSource );
+   try
+   {
+      xmlReader->parse( inputSource );
+   }
+   catch ( ... )
+   {
+      inputSource.rethrowError();
+      throw;
+   }
+
+   inputSource.rethrowError();
 }
 
 void E57XmlParser::startElement( const XMLCh *const uri, const XMLCh *const localName,
diff --git a/src/E57XmlParser.h b/src/E57XmlParser.h
index e1a5f86..30d2129 100644
--- a/src/E57XmlParser.h
+++ b/src/E57XmlParser.h
@@ -27,6 +27,7 @@
 
 #pragma once
 
+#include <exception>
 #include <stack>
 
 #include <xercesc/sax/InputSource.hpp>
@@ -44,6 +45,7 @@ namespace XERCES_CPP_NAMESPACE
 namespace e57
 {
    class CheckedFile;
+   class E57XmlFileInputSource;
 
    class E57XmlParser : public DefaultHandler
    {
@@ -53,7 +55,7 @@ namespace e57
 
       void init();
 
-      void parse( InputSource &inputSource );
+      void parse( E57XmlFileInputSource &inputSource );
 
    private:
       /// SAX interface
@@ -113,10 +115,14 @@ namespace e57
 
       BinInputStream *makeStream() const override;
 
+      /// Throw the error that ended the input early, if there was one
+      void rethrowError() const;
+
    private:
       //??? lifetime of cf_ must be longer than this object!
       CheckedFile *cf_;
       uint64_t logicalStart_;
       uint64_t logicalLength_;
+      mutable std::exception_ptr error_;
    };
 }
-- 
2.43.0


From 5e088208e9674ed5080c4751899c04c13b6c7cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:57:49 +0000
Subject: [PATCH 32/63] fix: free the messages of the XML parser

XMLString::transcode() returns memory that the caller has to release.
---
 src/E57XmlParser.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/E57XmlParser.cpp b/src/E57XmlParser.cpp
index 51e0f8c..b9bd1fc 100644
--- a/src/E57XmlParser.cpp
+++ b/src/E57XmlParser.cpp
@@ -314,7 +314,7 @@ void E57XmlParser::init()
    {
       // Turn parser exception into E57Exception
       throw E57_EXCEPTION2( ErrorXMLParserInit,
-                            "parserMessage=" + ustring( XMLString::transcode( ex.getMessage() ) ) );
+                            "parserMessage=" + toUString( ex.getMessage() ) );
    }
 
    xmlReader = XMLReaderFactory::createXMLReader(); //??? auto_ptr?
@@ -974,28 +974,28 @@ void E57XmlParser::characters( const XMLCh *const chars, const XMLSize_t length
 void E57XmlParser::error( const SAXParseException &ex )
 {
    throw E57_EXCEPTION2(
-      ErrorXMLParser, "systemId=" + ustring( XMLString::transcode( ex.getSystemId() ) ) +
+      ErrorXMLParser, "systemId=" + toUString( ex.getSystemId() ) +
                          " xmlLine=" + toString( ex.getLineNumber() ) +
                          " xmlColumn=" + toString( ex.getColumnNumber() ) +
-                         " parserMessage=" + ustring( XMLString::transcode( ex.getMessage() ) ) );
+                         " parserMessage=" + toUString( ex.getMessage() ) );
 }
 
 void E57XmlParser::fatalError( const SAXParseException &ex )
 {
    throw E57_EXCEPTION2(
-      ErrorXMLParser, "systemId=" + ustring( XMLString::transcode( ex.getSystemId() ) ) +
+      ErrorXMLParser, "systemId=" + toUString( ex.getSystemId() ) +
                          " xmlLine=" + toString( ex.getLineNumber() ) +
                          " xmlColumn=" + toString( ex.getColumnNumber() ) +
-                         " parserMessage=" + ustring( XMLString::transcode( ex.getMessage() ) ) );
+                         " parserMessage=" + toUString( ex.getMessage() ) );
 }
 
 void E57XmlParser::warning( const SAXParseException &ex )
 {
    // Don't take any action on warning from parser, just report
-   std::cerr << "**** XML parser warning: " << ustring( XMLString::transcode( ex.getMessage() ) )
+   std::cerr << "**** XML parser warning: " << toUString( ex.getMessage() )
              << std::endl;
    std::cerr << "  Debug info:" << std::endl;
-   std::cerr << "    systemId=" << XMLString::transcode( ex.getSystemId() ) << std::endl;
+   std::cerr << "    systemId=" << toUString( ex.getSystemId() ) << std::endl;
    std::cerr << ",   xmlLine=" << ex.getLineNumber() << std::endl;
    std::cerr << ",   xmlColumn=" << ex.getColumnNumber() << std::endl;
 }
-- 
2.43.0


From eab49f7f6e34400272f0bae72a3453ad7ebf2d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:58:18 +0000
Subject: [PATCH 33/63] fix: refuse compressed vectors without prototype

They were accepted when the XML was parsed and using them dereferenced a
null pointer. A missing codecs element now means that there are none.
---
 src/E57XmlParser.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/E57XmlParser.cpp b/src/E57XmlParser.cpp
index b9bd1fc..1ca4324 100644
--- a/src/E57XmlParser.cpp
+++ b/src/E57XmlParser.cpp
@@ -737,8 +737,25 @@ void E57XmlParser::endElement( const XMLCh *const uri, const XMLCh *const localN
          break;
       case TypeCompressedVector:
       {
-         // Verify that both prototype and codecs child elements were defined
-         // ???
+         // Verify that the prototype child element was defined. Without codecs child element, all
+         // fields have the default codec.
+         std::shared_ptr<CompressedVectorNodeImpl> cv_ni =
+            std::static_pointer_cast<CompressedVectorNodeImpl>( pi.container_ni );
+
+         if ( !cv_ni->getPrototype() )
+         {
+            throw E57_EXCEPTION2( ErrorBadXMLFormat, "missing prototype fileName=" +
+                                                        imf_->fileName() + " uri=" +
+                                                        toUString( uri ) + " localName=" +
+                                                        toUString( localName ) +
+                                                        " qName=" + toUString( qName ) );
+         }
+
+         if ( !cv_ni->getCodecs() )
+         {
+            cv_ni->setCodecs( std::make_shared<VectorNodeImpl>( imf_, true ) );
+         }
+
          current_ni = pi.container_ni;
       }
       break;
-- 
2.43.0


From a6be7342b5c1b4e1b2dfb2b4572df929a6501fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:58:24 +0000
Subject: [PATCH 34/63] fix: avoid overflow when calculating sizes of index
 ranges

---
 src/ReaderImpl.cpp | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/ReaderImpl.cpp b/src/ReaderImpl.cpp
index 11b9144..47a38c4 100644
--- a/src/ReaderImpl.cpp
+++ b/src/ReaderImpl.cpp
@@ -26,6 +26,7 @@
  * DEALINGS IN THE SOFTWARE.
  */
 
+#include <algorithm>
 #include <limits>
 
 #include "ReaderImpl.h"
@@ -35,6 +36,21 @@
 
 namespace e57
 {
+   // Number of integers in a range. It is limited to the largest value that can be returned.
+   static int64_t _rangeSize( int64_t minimum, int64_t maximum )
+   {
+      if ( maximum < minimum )
+      {
+         return 0;
+      }
+
+      const uint64_t difference =
+         static_cast<uint64_t>( maximum ) - static_cast<uint64_t>( minimum );
+      constexpr auto cLimit = static_cast<uint64_t>( std::numeric_limits<int64_t>::max() );
+
+      return static_cast<int64_t>( std::min( difference, cLimit - 1 ) + 1 );
+   }
+
    /*!
    @brief Reads the data out of a given image node
 
@@ -1501,14 +1517,14 @@ namespace e57
 
          if ( indexBounds.isDefined( "columnMaximum" ) )
          {
-            column = IntegerNode( indexBounds.get( "columnMaximum" ) ).value() -
-                     IntegerNode( indexBounds.get( "columnMinimum" ) ).value() + 1;
+            column = _rangeSize( IntegerNode( indexBounds.get( "columnMinimum" ) ).value(),
+                                 IntegerNode( indexBounds.get( "columnMaximum" ) ).value() );
          }
 
          if ( indexBounds.isDefined( "rowMaximum" ) )
          {
-            row = IntegerNode( indexBounds.get( "rowMaximum" ) ).value() -
-                  IntegerNode( indexBounds.get( "rowMinimum" ) ).value() + 1;
+            row = _rangeSize( IntegerNode( indexBounds.get( "rowMinimum" ) ).value(),
+                              IntegerNode( indexBounds.get( "rowMaximum" ) ).value() );
          }
       }
 
@@ -1535,7 +1551,8 @@ namespace e57
             {
                const IntegerNode integerIDElementValue( lineGroupRecord.get( "idElementValue" ) );
 
-               elementSize = integerIDElementValue.maximum() - integerIDElementValue.minimum() + 1;
+               elementSize =
+                  _rangeSize( integerIDElementValue.minimum(), integerIDElementValue.maximum() );
             }
             else if ( bColumnIndex )
             {
-- 
2.43.0


From cd1ba3f484d83bd37e93e25ad079ec0c6ea73ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:58:41 +0000
Subject: [PATCH 35/63] fix: refuse XML elements that are nested too deeply

They made the recursive functions of the nodes use up the stack.
---
 src/E57XmlParser.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/E57XmlParser.cpp b/src/E57XmlParser.cpp
index 1ca4324..2afc3cb 100644
--- a/src/E57XmlParser.cpp
+++ b/src/E57XmlParser.cpp
@@ -372,6 +372,16 @@ void E57XmlParser::startElement( const XMLCh *const uri, const XMLCh *const loca
                 << std::endl;
    }
 #endif
+   // Elements are handled recursively once they have been read, so limit how deep they are nested
+   constexpr size_t cMaxDepth = 1000;
+   if ( stack_.size() >= cMaxDepth )
+   {
+      throw E57_EXCEPTION2( ErrorBadXMLFormat, "nested too deeply, fileName=" + imf_->fileName() +
+                                                  " uri=" + toUString( uri ) +
+                                                  " localName=" + toUString( localName ) +
+                                                  " qName=" + toUString( qName ) );
+   }
+
    // Get Type attribute
    ustring node_type = lookupAttribute( attributes, att_type );
 
-- 
2.43.0


From 8e0fe56e56da9c99d959e1298777dfdddcbd2513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:11:27 +0000
Subject: [PATCH 36/63] fix: refuse XML with a document type definition

Its entities can be defined so that expanding them takes all memory and
time, and external ones make the parser read other files.
---
 src/E57XmlParser.cpp | 9 +++++++++
 src/E57XmlParser.h   | 1 +
 2 files changed, 10 insertions(+)

diff --git a/src/E57XmlParser.cpp b/src/E57XmlParser.cpp
index 2afc3cb..e75c7a9 100644
--- a/src/E57XmlParser.cpp
+++ b/src/E57XmlParser.cpp
@@ -333,6 +333,7 @@ void E57XmlParser::init()
    xmlReader->setFeature( XMLUni::fgSAX2CoreNameSpacePrefixes, true );
 
    xmlReader->setContentHandler( this );
+   xmlReader->setLexicalHandler( this );
    xmlReader->setErrorHandler( this );
 }
 
@@ -998,6 +999,14 @@ void E57XmlParser::characters( const XMLCh *const chars, const XMLSize_t length
    }
 }
 
+void E57XmlParser::startDTD( const XMLCh *const name, const XMLCh *const /*publicId*/,
+                             const XMLCh *const /*systemId*/ )
+{
+   // E57 files have no use for a document type definition. Its entities could expand to any size.
+   throw E57_EXCEPTION2( ErrorBadXMLFormat, "document type definition, fileName=" +
+                                               imf_->fileName() + " name=" + toUString( name ) );
+}
+
 void E57XmlParser::error( const SAXParseException &ex )
 {
    throw E57_EXCEPTION2(
diff --git a/src/E57XmlParser.h b/src/E57XmlParser.h
index 30d2129..d8d4384 100644
--- a/src/E57XmlParser.h
+++ b/src/E57XmlParser.h
@@ -63,6 +63,7 @@ namespace e57
                          const Attributes &attributes ) override;
       void endElement( const XMLCh *uri, const XMLCh *localName, const XMLCh *qName ) override;
       void characters( const XMLCh *chars, XMLSize_t length ) override;
+      void startDTD( const XMLCh *name, const XMLCh *publicId, const XMLCh *systemId ) override;
 
       /// SAX error interface
       void warning( const SAXParseException &ex ) override;
-- 
2.43.0


From e59cefe5a3028462da0391d6aa981f9eb58cd659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:25 +0000
Subject: [PATCH 37/63] fix: refuse to count readers and writers of a closed
 image file

ImageFile::readerCount and ImageFile::writerCount are documented to throw
ErrorImageFileNotOpen when the image file is not open, but returned a number.
---
 src/ImageFileImpl.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ImageFileImpl.cpp b/src/ImageFileImpl.cpp
index 29563e6..9506c07 100644
--- a/src/ImageFileImpl.cpp
+++ b/src/ImageFileImpl.cpp
@@ -388,11 +388,13 @@ namespace e57
 
    int ImageFileImpl::writerCount() const
    {
+      checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
       return writerCount_;
    }
 
    int ImageFileImpl::readerCount() const
    {
+      checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
       return readerCount_;
    }
 
-- 
2.43.0


From 6385647b679bedb8032508cc75b1ce346972ffca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:36 +0000
Subject: [PATCH 38/63] fix: refuse to write the records of a compressed vector
 twice

CompressedVectorNode::writer is documented to throw ErrorSetTwice when the
vector already has records. Instead the records were silently replaced.
---
 src/CompressedVectorNodeImpl.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/CompressedVectorNodeImpl.cpp b/src/CompressedVectorNodeImpl.cpp
index b8c32ab..0c8f1bc 100644
--- a/src/CompressedVectorNodeImpl.cpp
+++ b/src/CompressedVectorNodeImpl.cpp
@@ -341,6 +341,13 @@ namespace e57
          throw E57_EXCEPTION2( ErrorFileReadOnly, "fileName=" + destImageFile->fileName() );
       }
 
+      // A CompressedVector can't be written twice
+      if ( recordCount_ > 0 )
+      {
+         throw E57_EXCEPTION2( ErrorSetTwice, "fileName=" + destImageFile->fileName() +
+                                                 " recordCount=" + toString( recordCount_ ) );
+      }
+
       if ( !isAttached() )
       {
          throw E57_EXCEPTION2( ErrorNodeUnattached, "fileName=" + destImageFile->fileName() );
-- 
2.43.0


From 8e55fb7d9eae4b8cec1902a0cd8bf323b44382dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:39:11 +0000
Subject: [PATCH 39/63] fix: write bounds and colour limits which are only
 partly set

The Simple API wrote the Cartesian bounds only if the x limits were set, the
spherical bounds only if the range limits were set and the colour limits only
if the red limits were set. The other limits were lost otherwise.
---
 src/WriterImpl.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/WriterImpl.cpp b/src/WriterImpl.cpp
index 2c0bdaf..6e74c22 100644
--- a/src/WriterImpl.cpp
+++ b/src/WriterImpl.cpp
@@ -706,8 +706,7 @@ namespace e57
          scan.set( "intensityLimits", intbox );
       }
 
-      if ( ( data3DHeader.colorLimits.colorRedMaximum != 0.0 ) ||
-           ( data3DHeader.colorLimits.colorRedMinimum != 0.0 ) )
+      if ( data3DHeader.colorLimits != ColorLimits{} )
       {
          StructureNode colorbox( imf_ );
 
@@ -735,8 +734,7 @@ namespace e57
 
       // Add Cartesian bounding box to scan.
       // Path names: "/data3D/0/cartesianBounds/xMinimum", etc...
-      if ( ( data3DHeader.cartesianBounds.xMinimum != -DOUBLE_MAX ) ||
-           ( data3DHeader.cartesianBounds.xMaximum != DOUBLE_MAX ) )
+      if ( data3DHeader.cartesianBounds != CartesianBounds{} )
       {
          StructureNode bbox( imf_ );
 
@@ -750,8 +748,7 @@ namespace e57
          scan.set( "cartesianBounds", bbox );
       }
 
-      if ( ( data3DHeader.sphericalBounds.rangeMinimum != 0.0 ) ||
-           ( data3DHeader.sphericalBounds.rangeMaximum != DOUBLE_MAX ) )
+      if ( data3DHeader.sphericalBounds != SphericalBounds{} )
       {
          StructureNode sbox( imf_ );
 
-- 
2.43.0


From ee578bb82d97100a2edb8c4f33d11f055f99d7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:39:11 +0000
Subject: [PATCH 40/63] fix: write acquisition times before the GPS epoch

Acquisition times of zero or less were not written, although only a default
DateTime means that there is none.
---
 src/WriterImpl.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/WriterImpl.cpp b/src/WriterImpl.cpp
index 6e74c22..571bc11 100644
--- a/src/WriterImpl.cpp
+++ b/src/WriterImpl.cpp
@@ -248,7 +248,7 @@ namespace e57
                     StringNode( imf_, image2DHeader.associatedData3DGuid ) );
       }
 
-      if ( image2DHeader.acquisitionDateTime.dateTimeValue > 0.0 )
+      if ( image2DHeader.acquisitionDateTime != DateTime{} )
       {
          StructureNode acquisitionDateTime( imf_ );
 
@@ -790,7 +790,7 @@ namespace e57
       // Add start/stop acquisition times to scan.
       // Path names: "/data3D/0/acquisitionStart/dateTimeValue",
       //             "/data3D/0/acquisitionEnd/dateTimeValue"
-      if ( data3DHeader.acquisitionStart.dateTimeValue > 0.0 )
+      if ( data3DHeader.acquisitionStart != DateTime{} )
       {
          StructureNode acquisitionStart( imf_ );
 
@@ -802,7 +802,7 @@ namespace e57
 
          scan.set( "acquisitionStart", acquisitionStart );
       }
-      if ( data3DHeader.acquisitionEnd.dateTimeValue > 0.0 )
+      if ( data3DHeader.acquisitionEnd != DateTime{} )
       {
          StructureNode acquisitionEnd( imf_ );
 
-- 
2.43.0


From 30b3b35ba6f37a451324e52c106a745614869d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:39:11 +0000
Subject: [PATCH 41/63] fix: write an image representation beside a visual
 reference

The pinhole, spherical or cylindrical representation of an image was dropped
when the image had a visual reference representation too. The reader supports
both.
---
 src/WriterImpl.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/WriterImpl.cpp b/src/WriterImpl.cpp
index 571bc11..8ad7d40 100644
--- a/src/WriterImpl.cpp
+++ b/src/WriterImpl.cpp
@@ -312,8 +312,10 @@ namespace e57
             "imageWidth",
             IntegerNode( imf_, image2DHeader.visualReferenceRepresentation.imageWidth ) );
       }
-      else if ( image2DHeader.pinholeRepresentation.jpegImageSize > 0 ||
-                image2DHeader.pinholeRepresentation.pngImageSize > 0 )
+
+      // The visual reference may accompany one of the other representations.
+      if ( image2DHeader.pinholeRepresentation.jpegImageSize > 0 ||
+           image2DHeader.pinholeRepresentation.pngImageSize > 0 )
       {
          StructureNode pinholeRepresentation( imf_ );
          image.set( "pinholeRepresentation", pinholeRepresentation );
-- 
2.43.0


From 7df6ddf4d60b48f08573c856a57c36a63b7c3d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:40:13 +0000
Subject: [PATCH 42/63] fix: write scans with limits which do not include zero

The prototype nodes had the value 0. Creating them failed if the point range,
the angles, the intensity, the colours or the time stamps had limits which do
not include 0. Limits too large for an integer were converted to some other
integer, they are unlimited now.
---
 src/WriterImpl.cpp | 127 ++++++++++++++++++++++++++++++---------------
 1 file changed, 84 insertions(+), 43 deletions(-)

diff --git a/src/WriterImpl.cpp b/src/WriterImpl.cpp
index 8ad7d40..23bcdc8 100644
--- a/src/WriterImpl.cpp
+++ b/src/WriterImpl.cpp
@@ -26,6 +26,7 @@
  * DEALINGS IN THE SOFTWARE.
  */
 
+#include <algorithm>
 #include <cmath>
 
 #include "WriterImpl.h"
@@ -71,6 +72,46 @@ namespace
                .append( std::to_string( static_cast<int>( inNodeType ) ) );
       }
    }
+
+   /*!
+   @brief Get a value for a prototype node. The node's range might not include 0.
+
+   @return the value of the range which is closest to 0
+   */
+   template <typename T> T _valueInRange( T inMinimum, T inMaximum )
+   {
+      return std::max( inMinimum, std::min( inMaximum, T( 0 ) ) );
+   }
+
+   /*!
+   @brief Convert a limit to an integer.
+
+   @return the integer part of the limit, or the closest integer if it is too large
+   */
+   int64_t _integerLimit( double inLimit )
+   {
+      if ( inLimit <= static_cast<double>( INT64_MIN ) )
+      {
+         return INT64_MIN;
+      }
+
+      if ( inLimit >= static_cast<double>( INT64_MAX ) )
+      {
+         return INT64_MAX;
+      }
+
+      return static_cast<int64_t>( inLimit );
+   }
+
+   /// Create a prototype node for integers in a range.
+   e57::IntegerNode _integerPrototype( const e57::ImageFile &inImageFile, double inMinimum,
+                                       double inMaximum )
+   {
+      const int64_t minimum = _integerLimit( inMinimum );
+      const int64_t maximum = _integerLimit( inMaximum );
+
+      return e57::IntegerNode( inImageFile, _valueInRange( minimum, maximum ), minimum, maximum );
+   }
 }
 
 namespace e57
@@ -903,23 +944,26 @@ namespace e57
                   throw E57_EXCEPTION2( ErrorInvalidData3DValue, "pointRangeScale cannot be 0" );
                }
 
-               const auto pointRangeMinimum = static_cast<int64_t>(
+               const auto pointRangeMinimum = _integerLimit(
                   std::floor( ( pointRangeMin - pointRangeOffset ) / pointRangeScale + .5 ) );
-               const auto pointRangeMaximum = static_cast<int64_t>(
+               const auto pointRangeMaximum = _integerLimit(
                   std::floor( ( pointRangeMax - pointRangeOffset ) / pointRangeScale + .5 ) );
 
-               return ScaledIntegerNode( imf_, 0, pointRangeMinimum, pointRangeMaximum,
-                                         pointRangeScale, pointRangeOffset );
+               return ScaledIntegerNode(
+                  imf_, _valueInRange( pointRangeMinimum, pointRangeMaximum ), pointRangeMinimum,
+                  pointRangeMaximum, pointRangeScale, pointRangeOffset );
             }
 
             case NumericalNodeType::Float:
             {
-               return FloatNode( imf_, 0.0, PrecisionSingle, pointRangeMin, pointRangeMax );
+               return FloatNode( imf_, _valueInRange( pointRangeMin, pointRangeMax ),
+                                 PrecisionSingle, pointRangeMin, pointRangeMax );
             }
 
             case NumericalNodeType::Double:
             {
-               return FloatNode( imf_, 0.0, PrecisionDouble, pointRangeMin, pointRangeMax );
+               return FloatNode( imf_, _valueInRange( pointRangeMin, pointRangeMax ),
+                                 PrecisionDouble, pointRangeMin, pointRangeMax );
             }
          }
 
@@ -970,23 +1014,25 @@ namespace e57
                   throw E57_EXCEPTION2( ErrorInvalidData3DValue, "angleScale cannot be 0" );
                }
 
-               const auto angleMinimum = static_cast<int64_t>(
-                  std::floor( ( angleMin - angleOffset ) / angleScale + .5 ) );
-               const auto angleMaximum = static_cast<int64_t>(
-                  std::floor( ( angleMax - angleOffset ) / angleScale + .5 ) );
+               const auto angleMinimum =
+                  _integerLimit( std::floor( ( angleMin - angleOffset ) / angleScale + .5 ) );
+               const auto angleMaximum =
+                  _integerLimit( std::floor( ( angleMax - angleOffset ) / angleScale + .5 ) );
 
-               return ScaledIntegerNode( imf_, 0, angleMinimum, angleMaximum, angleScale,
-                                         angleOffset );
+               return ScaledIntegerNode( imf_, _valueInRange( angleMinimum, angleMaximum ),
+                                         angleMinimum, angleMaximum, angleScale, angleOffset );
             }
 
             case NumericalNodeType::Float:
             {
-               return FloatNode( imf_, 0.0, PrecisionSingle, angleMin, angleMax );
+               return FloatNode( imf_, _valueInRange( angleMin, angleMax ), PrecisionSingle,
+                                 angleMin, angleMax );
             }
 
             case NumericalNodeType::Double:
             {
-               return FloatNode( imf_, 0.0, PrecisionDouble, angleMin, angleMax );
+               return FloatNode( imf_, _valueInRange( angleMin, angleMax ), PrecisionDouble,
+                                 angleMin, angleMax );
             }
          }
 
@@ -1015,8 +1061,7 @@ namespace e57
          {
             case NumericalNodeType::Integer:
             {
-               proto.set( "intensity", IntegerNode( imf_, 0, static_cast<int64_t>( intensityMin ),
-                                                    static_cast<int64_t>( intensityMax ) ) );
+               proto.set( "intensity", _integerPrototype( imf_, intensityMin, intensityMax ) );
 
                break;
             }
@@ -1027,30 +1072,30 @@ namespace e57
                const double offset = 0.0; // could be data3DHeader.intensityLimits.intensityMinimum;
 
                const auto rawIntegerMaximum =
-                  static_cast<int64_t>( std::floor( ( intensityMax - offset ) / scale + .5 ) );
+                  _integerLimit( std::floor( ( intensityMax - offset ) / scale + .5 ) );
                const auto rawIntegerMinimum =
-                  static_cast<int64_t>( std::floor( ( intensityMin - offset ) / scale + .5 ) );
+                  _integerLimit( std::floor( ( intensityMin - offset ) / scale + .5 ) );
 
-               proto.set( "intensity", ScaledIntegerNode( imf_, 0, rawIntegerMinimum,
-                                                          rawIntegerMaximum, scale, offset ) );
+               proto.set(
+                  "intensity",
+                  ScaledIntegerNode( imf_, _valueInRange( rawIntegerMinimum, rawIntegerMaximum ),
+                                     rawIntegerMinimum, rawIntegerMaximum, scale, offset ) );
 
                break;
             }
 
             case NumericalNodeType::Float:
             {
-               proto.set( "intensity", FloatNode( imf_, 0.0, PrecisionSingle,
-                                                  data3DHeader.intensityLimits.intensityMinimum,
-                                                  data3DHeader.intensityLimits.intensityMaximum ) );
+               proto.set( "intensity", FloatNode( imf_, _valueInRange( intensityMin, intensityMax ),
+                                                  PrecisionSingle, intensityMin, intensityMax ) );
 
                break;
             }
 
             case NumericalNodeType::Double:
             {
-               proto.set( "intensity", FloatNode( imf_, 0.0, PrecisionDouble,
-                                                  data3DHeader.intensityLimits.intensityMinimum,
-                                                  data3DHeader.intensityLimits.intensityMaximum ) );
+               proto.set( "intensity", FloatNode( imf_, _valueInRange( intensityMin, intensityMax ),
+                                                  PrecisionDouble, intensityMin, intensityMax ) );
 
                break;
             }
@@ -1059,24 +1104,19 @@ namespace e57
 
       if ( data3DHeader.pointFields.colorRedField )
       {
-         proto.set(
-            "colorRed",
-            IntegerNode( imf_, 0, static_cast<int64_t>( data3DHeader.colorLimits.colorRedMinimum ),
-                         static_cast<int64_t>( data3DHeader.colorLimits.colorRedMaximum ) ) );
+         proto.set( "colorRed", _integerPrototype( imf_, data3DHeader.colorLimits.colorRedMinimum,
+                                                   data3DHeader.colorLimits.colorRedMaximum ) );
       }
       if ( data3DHeader.pointFields.colorGreenField )
       {
          proto.set( "colorGreen",
-                    IntegerNode(
-                       imf_, 0, static_cast<int64_t>( data3DHeader.colorLimits.colorGreenMinimum ),
-                       static_cast<int64_t>( data3DHeader.colorLimits.colorGreenMaximum ) ) );
+                    _integerPrototype( imf_, data3DHeader.colorLimits.colorGreenMinimum,
+                                       data3DHeader.colorLimits.colorGreenMaximum ) );
       }
       if ( data3DHeader.pointFields.colorBlueField )
       {
-         proto.set(
-            "colorBlue",
-            IntegerNode( imf_, 0, static_cast<int64_t>( data3DHeader.colorLimits.colorBlueMinimum ),
-                         static_cast<int64_t>( data3DHeader.colorLimits.colorBlueMaximum ) ) );
+         proto.set( "colorBlue", _integerPrototype( imf_, data3DHeader.colorLimits.colorBlueMinimum,
+                                                    data3DHeader.colorLimits.colorBlueMaximum ) );
       }
 
       if ( data3DHeader.pointFields.returnIndexField )
@@ -1110,8 +1150,7 @@ namespace e57
          {
             case NumericalNodeType::Integer:
             {
-               proto.set( "timeStamp", IntegerNode( imf_, 0, static_cast<int64_t>( timeMinimum ),
-                                                    static_cast<int64_t>( timeMaximum ) ) );
+               proto.set( "timeStamp", _integerPrototype( imf_, timeMinimum, timeMaximum ) );
                break;
             }
 
@@ -1121,12 +1160,14 @@ namespace e57
                const double offset = 0.0;
 
                const auto rawIntegerMinimum =
-                  static_cast<int64_t>( std::floor( ( timeMinimum - offset ) / scale + .5 ) );
+                  _integerLimit( std::floor( ( timeMinimum - offset ) / scale + .5 ) );
                const auto rawIntegerMaximum =
-                  static_cast<int64_t>( std::floor( ( timeMaximum - offset ) / scale + .5 ) );
+                  _integerLimit( std::floor( ( timeMaximum - offset ) / scale + .5 ) );
 
-               proto.set( "timeStamp", ScaledIntegerNode( imf_, 0, rawIntegerMinimum,
-                                                          rawIntegerMaximum, scale, offset ) );
+               proto.set(
+                  "timeStamp",
+                  ScaledIntegerNode( imf_, _valueInRange( rawIntegerMinimum, rawIntegerMaximum ),
+                                     rawIntegerMinimum, rawIntegerMaximum, scale, offset ) );
                break;
             }
 
-- 
2.43.0


From 023f8c2db2709f52fe350dc8b288b17cbd161a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:40:25 +0000
Subject: [PATCH 43/63] fix: write the limits of floating point time stamps

The limits of the time stamps were written for integers and scaled integers
only.
---
 src/WriterImpl.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/WriterImpl.cpp b/src/WriterImpl.cpp
index 23bcdc8..0bc4ddb 100644
--- a/src/WriterImpl.cpp
+++ b/src/WriterImpl.cpp
@@ -1173,15 +1173,15 @@ namespace e57
 
             case NumericalNodeType::Float:
             {
-               proto.set( "timeStamp",
-                          FloatNode( imf_, 0.0, PrecisionSingle, FLOAT_MIN, FLOAT_MAX ) );
+               proto.set( "timeStamp", FloatNode( imf_, _valueInRange( timeMinimum, timeMaximum ),
+                                                  PrecisionSingle, timeMinimum, timeMaximum ) );
                break;
             }
 
             case NumericalNodeType::Double:
             {
-               proto.set( "timeStamp",
-                          FloatNode( imf_, 0.0, PrecisionDouble, DOUBLE_MIN, DOUBLE_MAX ) );
+               proto.set( "timeStamp", FloatNode( imf_, _valueInRange( timeMinimum, timeMaximum ),
+                                                  PrecisionDouble, timeMinimum, timeMaximum ) );
                break;
             }
          }
-- 
2.43.0


From e55449ad871f244b8ba37562f1a7a87977970834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:50:44 +0000
Subject: [PATCH 44/63] fix: calculate the limits of scaled points from the
 fields in use

WriteData3DData calculates the limits of points stored as scaled integers.
It read the buffers of Y, Z and the angles even if they were not used,
ignored Y and Z without X, and produced inverted limits without points.
---
 src/E57SimpleWriter.cpp | 62 ++++++++++++++++++++++++-----------------
 1 file changed, 37 insertions(+), 25 deletions(-)

diff --git a/src/E57SimpleWriter.cpp b/src/E57SimpleWriter.cpp
index d11d81e..9c6b493 100644
--- a/src/E57SimpleWriter.cpp
+++ b/src/E57SimpleWriter.cpp
@@ -49,6 +49,22 @@ namespace
       constexpr COORDTYPE cMin = std::numeric_limits<COORDTYPE>::lowest();
       constexpr COORDTYPE cMax = std::numeric_limits<COORDTYPE>::max();
 
+      // The header may have its own defaults or the ones of Data3DPointsData_t
+      auto isUnset = []( double inMinimum, double inMaximum ) {
+         return ( ( inMinimum == cMin ) && ( inMaximum == cMax ) ) ||
+                ( ( inMinimum == e57::DOUBLE_MIN ) && ( inMaximum == e57::DOUBLE_MAX ) );
+      };
+
+      // Include a value of a field which might not be used
+      auto include = []( bool inFieldUsed, const COORDTYPE *inBuffer, size_t inIndex,
+                         COORDTYPE &ioMinimum, COORDTYPE &ioMaximum ) {
+         if ( inFieldUsed && ( inBuffer != nullptr ) )
+         {
+            ioMinimum = std::min( inBuffer[inIndex], ioMinimum );
+            ioMaximum = std::max( inBuffer[inIndex], ioMaximum );
+         }
+      };
+
       // IF we are using scaled ints for cartesian points
       // AND we haven't set either min or max
       // THEN calculate them from the points
@@ -57,7 +73,7 @@ namespace
 
       const bool writePointRange =
          ( pointFields.pointRangeNodeType == e57::NumericalNodeType::ScaledInteger ) &&
-         ( pointFields.pointRangeMinimum == cMin ) && ( pointFields.pointRangeMaximum == cMax );
+         isUnset( pointFields.pointRangeMinimum, pointFields.pointRangeMaximum );
 
       // IF we are using scaled ints for spherical angles
       // AND we haven't set either min or max
@@ -67,7 +83,7 @@ namespace
 
       const bool writeAngle =
          ( pointFields.angleNodeType == e57::NumericalNodeType::ScaledInteger ) &&
-         ( pointFields.angleMinimum == cMin ) && ( pointFields.angleMaximum == cMax );
+         isUnset( pointFields.angleMinimum, pointFields.angleMaximum );
 
       // IF we are using scaled ints for timestamps
       // AND we haven't set either min or max
@@ -78,60 +94,56 @@ namespace
       const bool writeTimeStamp =
          pointFields.timeStampField &&
          ( pointFields.timeNodeType == e57::NumericalNodeType::ScaledInteger ) &&
-         ( pointFields.timeMinimum == cMin ) && ( pointFields.timeMaximum == cMax );
+         isUnset( pointFields.timeMinimum, pointFields.timeMaximum );
 
       // Now run through the points and set the things we need to
       for ( size_t i = 0; i < ioData3DHeader.pointCount; ++i )
       {
-         if ( writePointRange && pointFields.cartesianXField )
+         if ( writePointRange )
          {
-            pointRangeMinimum = std::min( inBuffers.cartesianX[i], pointRangeMinimum );
-            pointRangeMinimum = std::min( inBuffers.cartesianY[i], pointRangeMinimum );
-            pointRangeMinimum = std::min( inBuffers.cartesianZ[i], pointRangeMinimum );
+            include( pointFields.cartesianXField, inBuffers.cartesianX, i, pointRangeMinimum,
+                     pointRangeMaximum );
+            include( pointFields.cartesianYField, inBuffers.cartesianY, i, pointRangeMinimum,
+                     pointRangeMaximum );
+            include( pointFields.cartesianZField, inBuffers.cartesianZ, i, pointRangeMinimum,
+                     pointRangeMaximum );
 
-            pointRangeMaximum = std::max( inBuffers.cartesianX[i], pointRangeMaximum );
-            pointRangeMaximum = std::max( inBuffers.cartesianY[i], pointRangeMaximum );
-            pointRangeMaximum = std::max( inBuffers.cartesianZ[i], pointRangeMaximum );
-         }
-
-         if ( writePointRange && pointFields.sphericalRangeField )
-         {
             // Note that the writer code uses pointRangeMinimum/pointRangeMaximum
             // (see WriterImpl::NewData3D()) instead of using the sphericalBounds which has
             // rangeMinimum and rangeMaximum.
-            pointRangeMinimum = std::min( inBuffers.sphericalRange[i], pointRangeMinimum );
-            pointRangeMaximum = std::max( inBuffers.sphericalRange[i], pointRangeMaximum );
+            include( pointFields.sphericalRangeField, inBuffers.sphericalRange, i,
+                     pointRangeMinimum, pointRangeMaximum );
          }
 
          if ( writeAngle )
          {
-            angleMinimum = std::min( inBuffers.sphericalAzimuth[i], angleMinimum );
-            angleMinimum = std::min( inBuffers.sphericalElevation[i], angleMinimum );
-
-            angleMaximum = std::max( inBuffers.sphericalAzimuth[i], angleMaximum );
-            angleMaximum = std::max( inBuffers.sphericalElevation[i], angleMaximum );
+            include( pointFields.sphericalAzimuthField, inBuffers.sphericalAzimuth, i, angleMinimum,
+                     angleMaximum );
+            include( pointFields.sphericalElevationField, inBuffers.sphericalElevation, i,
+                     angleMinimum, angleMaximum );
          }
 
-         if ( writeTimeStamp )
+         if ( writeTimeStamp && ( inBuffers.timeStamp != nullptr ) )
          {
             timeMinimum = std::min( inBuffers.timeStamp[i], timeMinimum );
             timeMaximum = std::max( inBuffers.timeStamp[i], timeMaximum );
          }
       }
 
-      if ( writePointRange )
+      // Keep the limits if there are no values at all
+      if ( writePointRange && ( pointRangeMinimum <= pointRangeMaximum ) )
       {
          pointFields.pointRangeMinimum = pointRangeMinimum;
          pointFields.pointRangeMaximum = pointRangeMaximum;
       }
 
-      if ( writeAngle )
+      if ( writeAngle && ( angleMinimum <= angleMaximum ) )
       {
          pointFields.angleMinimum = angleMinimum;
          pointFields.angleMaximum = angleMaximum;
       }
 
-      if ( writeTimeStamp )
+      if ( writeTimeStamp && ( timeMinimum <= timeMaximum ) )
       {
          pointFields.timeMinimum = timeMinimum;
          pointFields.timeMaximum = timeMaximum;
-- 
2.43.0


From 1c90c997286332f47e53b4036e9fe884b6dbbee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:03:23 +0000
Subject: [PATCH 45/63] fix: store numbers independently of the locale

Integers and the names of vector children were formatted with the global
locale. With digit grouping the file could not be read again.
---
 src/CheckedFile.cpp       | 8 ++------
 src/StringFunctions.h     | 2 ++
 src/StructureNodeImpl.cpp | 5 ++---
 3 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/CheckedFile.cpp b/src/CheckedFile.cpp
index 6a33afe..a014773 100644
--- a/src/CheckedFile.cpp
+++ b/src/CheckedFile.cpp
@@ -473,16 +473,12 @@ CheckedFile &CheckedFile::operator<<( const ustring &s )
 
 CheckedFile &CheckedFile::operator<<( int64_t i )
 {
-   std::stringstream ss;
-   ss << i;
-   return ( *this << ss.str() );
+   return ( *this << toString( i ) );
 }
 
 CheckedFile &CheckedFile::operator<<( uint64_t i )
 {
-   std::stringstream ss;
-   ss << i;
-   return ( *this << ss.str() );
+   return ( *this << toString( i ) );
 }
 
 CheckedFile &CheckedFile::operator<<( float f )
diff --git a/src/StringFunctions.h b/src/StringFunctions.h
index a2c08be..4e2321e 100644
--- a/src/StringFunctions.h
+++ b/src/StringFunctions.h
@@ -30,6 +30,7 @@
 #include <cstdint>
 #include <iomanip>
 #include <iostream>
+#include <locale>
 #include <sstream>
 #include <string>
 
@@ -49,6 +50,7 @@ namespace e57
                      "Numeric type required." );
 
       std::ostringstream ss;
+      ss.imbue( std::locale::classic() );
       ss << x;
       return ss.str();
    }
diff --git a/src/StructureNodeImpl.cpp b/src/StructureNodeImpl.cpp
index fe15ec4..f55eda8 100644
--- a/src/StructureNodeImpl.cpp
+++ b/src/StructureNodeImpl.cpp
@@ -236,8 +236,7 @@ void StructureNodeImpl::set( int64_t index64, NodeImplSharedPtr ni )
    }
 
    // Field name is string version of index value, e.g. "14"
-   std::stringstream elementName;
-   elementName << index;
+   const ustring elementName = toString( index );
 
    // If this struct is type constrained, can't add new child
    if ( isTypeConstrained() )
@@ -245,7 +244,7 @@ void StructureNodeImpl::set( int64_t index64, NodeImplSharedPtr ni )
       throw E57_EXCEPTION2( ErrorHomogeneousViolation, "this->pathName=" + this->pathName() );
    }
 
-   ni->setParent( shared_from_this(), elementName.str() );
+   ni->setParent( shared_from_this(), elementName );
    children_.push_back( ni );
 }
 
-- 
2.43.0


From c00d649dc85aaabc77563d3f718762c04d5e8754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:03:37 +0000
Subject: [PATCH 46/63] fix: refuse to get extensions which do not exist

The index of an extension was not checked, as documented, but used to read
beyond the end of the list.
---
 src/ImageFileImpl.cpp | 18 ++++++++++++++++--
 src/ImageFileImpl.h   |  1 +
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/ImageFileImpl.cpp b/src/ImageFileImpl.cpp
index 9506c07..06098dd 100644
--- a/src/ImageFileImpl.cpp
+++ b/src/ImageFileImpl.cpp
@@ -517,14 +517,28 @@ namespace e57
    {
       checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
 
-      return nameSpaces_[index].prefix; //??? throw e57 exception here if out of bounds?
+      checkExtensionIndex( index );
+
+      return nameSpaces_[index].prefix;
    }
 
    ustring ImageFileImpl::extensionsUri( const size_t index ) const
    {
       checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
 
-      return nameSpaces_[index].uri; //??? throw e57 exception here if out of bounds?
+      checkExtensionIndex( index );
+
+      return nameSpaces_[index].uri;
+   }
+
+   void ImageFileImpl::checkExtensionIndex( const size_t index ) const
+   {
+      if ( index >= nameSpaces_.size() )
+      {
+         throw E57_EXCEPTION2( ErrorBadAPIArgument,
+                               "fileName=" + fileName_ + " index=" + toString( index ) +
+                                  " extensionsCount=" + toString( nameSpaces_.size() ) );
+      }
    }
 
    bool ImageFileImpl::isElementNameExtended( const ustring &elementName )
diff --git a/src/ImageFileImpl.h b/src/ImageFileImpl.h
index 67afee2..7cfa576 100644
--- a/src/ImageFileImpl.h
+++ b/src/ImageFileImpl.h
@@ -67,6 +67,7 @@ namespace e57
       size_t extensionsCount() const;
       ustring extensionsPrefix( size_t index ) const;
       ustring extensionsUri( size_t index ) const;
+      void checkExtensionIndex( size_t index ) const;
 
       /// Utility functions:
       bool isElementNameExtended( const ustring &elementName );
-- 
2.43.0


From 23d095f0fe322761599a776d4600416d54e097c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:07:01 +0000
Subject: [PATCH 47/63] fix: read elements named e57Root below the root

The reader looked for namespace declarations in every structure of that name
and refused the file if there were none.
---
 src/E57XmlParser.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/E57XmlParser.cpp b/src/E57XmlParser.cpp
index e75c7a9..fb2c3db 100644
--- a/src/E57XmlParser.cpp
+++ b/src/E57XmlParser.cpp
@@ -588,8 +588,9 @@ void E57XmlParser::startElement( const XMLCh *const uri, const XMLCh *const loca
 #endif
       pi.nodeType = TypeStructure;
 
-      // Read name space decls, if e57Root element
-      if ( toUString( localName ) == "e57Root" )
+      // Read name space decls, if e57Root element (other elements may have the same name)
+      const bool isRoot = stack_.empty() && ( toUString( localName ) == "e57Root" );
+      if ( isRoot )
       {
          // Search attributes for namespace declarations (only allowed in E57Root structure)
          bool gotDefault = false;
@@ -635,7 +636,7 @@ void E57XmlParser::startElement( const XMLCh *const uri, const XMLCh *const loca
 
       // After have Structure, check again if E57Root, if so mark attached so all children will be
       // attached when added
-      if ( toUString( localName ) == "e57Root" )
+      if ( isRoot )
       {
          s_ni->setAttachedRecursive();
       }
-- 
2.43.0


From b7e94d26e288cb7c250d9d460a2d984b3be70280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:07:51 +0000
Subject: [PATCH 48/63] fix: refuse extensions which cannot be declared in XML

Prefixes and URIs were written to the XML without checks and without
escaping, so that the file could not be opened or had other URIs.
---
 src/ImageFileImpl.cpp     | 28 +++++++++++++++++++++++++--
 src/ImageFileImpl.h       |  1 +
 src/StringFunctions.cpp   | 40 +++++++++++++++++++++++++++++++++++++++
 src/StringFunctions.h     |  6 ++++++
 src/StringNodeImpl.cpp    | 20 --------------------
 src/StructureNodeImpl.cpp |  2 +-
 6 files changed, 74 insertions(+), 23 deletions(-)

diff --git a/src/ImageFileImpl.cpp b/src/ImageFileImpl.cpp
index 06098dd..cb64368 100644
--- a/src/ImageFileImpl.cpp
+++ b/src/ImageFileImpl.cpp
@@ -447,8 +447,12 @@ namespace e57
    void ImageFileImpl::extensionsAdd( const ustring &prefix, const ustring &uri )
    {
       checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
-      //??? check if prefix characters ok, check if uri has a double quote char
-      //(others?)
+
+      // The XML parser has already checked the namespaces of a file being read
+      if ( isWriter_ )
+      {
+         checkExtension( prefix, uri );
+      }
 
       // Check to make sure that neither prefix or uri is already defined.
       ustring dummy;
@@ -468,6 +472,26 @@ namespace e57
       nameSpaces_.emplace_back( prefix, uri );
    }
 
+   void ImageFileImpl::checkExtension( const ustring &prefix, const ustring &uri ) const
+   {
+      // The prefix and URI must be ones that can be declared in XML
+      const bool prefixOK =
+         prefix.empty() || ( isXmlName( prefix ) && prefix != "xml" && prefix != "xmlns" );
+      const bool uriOK = !uri.empty() && isXmlText( uri ) &&
+                         uri != "http://www.w3.org/XML/1998/namespace" &&
+                         uri != "http://www.w3.org/2000/xmlns/";
+      if ( !prefixOK || !uriOK )
+      {
+         throw E57_EXCEPTION2( ErrorBadAPIArgument, "prefix=" + prefix + " uri=" + uri );
+      }
+
+      // The URI of the standard belongs to the default namespace
+      if ( !prefix.empty() && uri == VERSION_1_0_URI )
+      {
+         throw E57_EXCEPTION2( ErrorDuplicateNamespaceURI, "prefix=" + prefix + " uri=" + uri );
+      }
+   }
+
    bool ImageFileImpl::extensionsLookupPrefix( const ustring &prefix, ustring &uri ) const
    {
       checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
diff --git a/src/ImageFileImpl.h b/src/ImageFileImpl.h
index 7cfa576..feaedf1 100644
--- a/src/ImageFileImpl.h
+++ b/src/ImageFileImpl.h
@@ -67,6 +67,7 @@ namespace e57
       size_t extensionsCount() const;
       ustring extensionsPrefix( size_t index ) const;
       ustring extensionsUri( size_t index ) const;
+      void checkExtension( const ustring &prefix, const ustring &uri ) const;
       void checkExtensionIndex( size_t index ) const;
 
       /// Utility functions:
diff --git a/src/StringFunctions.cpp b/src/StringFunctions.cpp
index d2530af..4e9d230 100644
--- a/src/StringFunctions.cpp
+++ b/src/StringFunctions.cpp
@@ -110,4 +110,44 @@ namespace e57
              ( codePoint < 0xD800 || codePoint > 0xDFFF );
    }
 
+   bool isXmlText( const std::string &str )
+   {
+      size_t i = 0;
+      while ( i < str.length() )
+      {
+         uint32_t c = 0;
+         if ( !nextCodePoint( str, i, c ) || ( c < 0x20 && c != '\t' && c != '\n' && c != '\r' ) ||
+              c == 0xFFFE || c == 0xFFFF )
+         {
+            return false;
+         }
+      }
+
+      return true;
+   }
+
+   std::string xmlAttributeValue( const std::string &str )
+   {
+      std::string value;
+      for ( char c : str )
+      {
+         switch ( c )
+         {
+            case '&':
+            case '<':
+            case '"':
+            case '\t':
+            case '\n':
+            case '\r':
+               value += "&#" + toString( static_cast<int>( c ) ) + ";";
+               break;
+
+            default:
+               value += c;
+               break;
+         }
+      }
+
+      return value;
+   }
 }
diff --git a/src/StringFunctions.h b/src/StringFunctions.h
index 4e2321e..4156244 100644
--- a/src/StringFunctions.h
+++ b/src/StringFunctions.h
@@ -209,4 +209,10 @@ namespace e57
    /// Get the code point that starts at a position in a UTF-8 string and move on to the next one.
    /// @return false if the string is not valid UTF-8 there.
    bool nextCodePoint( const std::string &str, size_t &pos, uint32_t &codePoint );
+
+   /// @return true if the string is valid UTF-8 and contains only characters that XML allows.
+   bool isXmlText( const std::string &str );
+
+   /// Replace the characters that can't be used in an XML attribute value by references.
+   std::string xmlAttributeValue( const std::string &str );
 }
diff --git a/src/StringNodeImpl.cpp b/src/StringNodeImpl.cpp
index f169dc1..a3c89a7 100644
--- a/src/StringNodeImpl.cpp
+++ b/src/StringNodeImpl.cpp
@@ -31,26 +31,6 @@
 
 namespace e57
 {
-   namespace
-   {
-      // Is the string valid UTF-8 and does it contain only characters that XML allows?
-      bool isXmlText( const ustring &str )
-      {
-         size_t i = 0;
-         while ( i < str.length() )
-         {
-            uint32_t c = 0;
-            if ( !nextCodePoint( str, i, c ) || ( c < 0x20 && c != '\t' && c != '\n' && c != '\r' ) ||
-                 c == 0xFFFE || c == 0xFFFF )
-            {
-               return false;
-            }
-         }
-
-         return true;
-      }
-   }
-
    StringNodeImpl::StringNodeImpl( ImageFileImplWeakPtr destImageFile, const ustring &value ) :
       NodeImpl( destImageFile ), value_( value )
    {
diff --git a/src/StructureNodeImpl.cpp b/src/StructureNodeImpl.cpp
index f55eda8..787da7e 100644
--- a/src/StructureNodeImpl.cpp
+++ b/src/StructureNodeImpl.cpp
@@ -454,7 +454,7 @@ void StructureNodeImpl::writeXml( ImageFileImplSharedPtr imf, CheckedFile &cf, i
 
          cf << "\n"
             << space( numSpaces ) << xmlnsExtension << imf->extensionsPrefix( index ) << "=\""
-            << imf->extensionsUri( index ) << "\"";
+            << xmlAttributeValue( imf->extensionsUri( index ) ) << "\"";
       }
 
       // If user didn't explicitly declare a default namespace, use the current E57 standard one.
-- 
2.43.0


From 1172fe4a2379b6f7bd0370945e5b4bc87a39644a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:21:20 +0000
Subject: [PATCH 49/63] fix: refuse to create blobs while records are being
 written

The packets of a compressed vector have to follow each other in the file.
A blob created between two packets was placed in the middle of them, and the
records could not be read from the file afterwards.
---
 src/BlobNode.cpp     | 1 +
 src/BlobNodeImpl.cpp | 9 +++++++++
 2 files changed, 10 insertions(+)

diff --git a/src/BlobNode.cpp b/src/BlobNode.cpp
index 09ae5ee..b6fa61b 100644
--- a/src/BlobNode.cpp
+++ b/src/BlobNode.cpp
@@ -129,6 +129,7 @@ must be true).
 @throw ::ErrorBadAPIArgument (n/c)
 @throw ::ErrorImageFileNotOpen (n/c)
 @throw ::ErrorFileReadOnly (n/c)
+@throw ::ErrorTooManyWriters A CompressedVectorWriter of @a destImageFile is open (n/c)
 @throw ::ErrorInternal All objects in undocumented state (n/c)
 
 @see Node, BlobNode::read, BlobNode::write
diff --git a/src/BlobNodeImpl.cpp b/src/BlobNodeImpl.cpp
index 5500057..12ffa7e 100644
--- a/src/BlobNodeImpl.cpp
+++ b/src/BlobNodeImpl.cpp
@@ -45,6 +45,15 @@ namespace e57
 
       ImageFileImplSharedPtr imf( destImageFile );
 
+      // The packets of a CompressedVector are contiguous, so nothing else can be allocated before its
+      // writer is closed.
+      if ( imf->writerCount() > 0 )
+      {
+         throw E57_EXCEPTION2( ErrorTooManyWriters,
+                               "fileName=" + imf->fileName() +
+                                  " writerCount=" + toString( imf->writerCount() ) );
+      }
+
       // This what caller thinks blob length is
       blobLogicalLength_ = byteCount;
 
-- 
2.43.0


From d8b350cf01186b8c4ab483cbda874ac2d67c3a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:41:13 +0000
Subject: [PATCH 50/63] fix: keep the buffers of a writer when a write is
 refused

A write of more records than the new buffers hold was refused, but the writer
kept using the new buffers, which the caller may have released by then.
---
 src/CompressedVectorWriterImpl.cpp | 34 +++++++++++++++++++-----------
 src/CompressedVectorWriterImpl.h   |  5 ++++-
 2 files changed, 26 insertions(+), 13 deletions(-)

diff --git a/src/CompressedVectorWriterImpl.cpp b/src/CompressedVectorWriterImpl.cpp
index 349151d..ea46f7d 100644
--- a/src/CompressedVectorWriterImpl.cpp
+++ b/src/CompressedVectorWriterImpl.cpp
@@ -65,7 +65,7 @@ namespace e57
       proto_ = cVector_->getPrototype();
 
       // Check sbufs well formed (matches proto exactly)
-      setBuffers( sbufs ); //??? copy code here?
+      setBuffers( sbufs, 0 ); //??? copy code here?
 
       // For each individual sbuf, create an appropriate Encoder based on the
       // cVector_ attributes
@@ -248,7 +248,22 @@ namespace e57
       return cVector_;
    }
 
-   void CompressedVectorWriterImpl::setBuffers( std::vector<SourceDestBuffer> &sbufs )
+   void CompressedVectorWriterImpl::checkRecordCount( const std::vector<SourceDestBuffer> &sbufs,
+                                                      const size_t requestedRecordCount ) const
+   {
+      // Check that requestedRecordCount is not larger than the sbufs
+      if ( requestedRecordCount > sbufs.at( 0 ).impl()->capacity() )
+      {
+         throw E57_EXCEPTION2( ErrorBadAPIArgument,
+                               "requested=" + toString( requestedRecordCount ) +
+                                  " capacity=" + toString( sbufs.at( 0 ).impl()->capacity() ) +
+                                  " imageFileName=" + cVector_->imageFileName() +
+                                  " cvPathName=" + cVector_->pathName() );
+      }
+   }
+
+   void CompressedVectorWriterImpl::setBuffers( std::vector<SourceDestBuffer> &sbufs,
+                                                const size_t requestedRecordCount )
    {
       // don't checkImageFileOpen
 
@@ -278,6 +293,9 @@ namespace e57
       // at same time.
       proto_->checkBuffers( sbufs, false );
 
+      // Check before the buffers are replaced, so a refused write keeps the old ones
+      checkRecordCount( sbufs, requestedRecordCount );
+
       sbufs_ = sbufs;
 
       // If encoders already exist, make them read from the new buffers. Encoders are ordered by
@@ -304,7 +322,7 @@ namespace e57
       // don't checkImageFileOpen, write(unsigned) will do it
       // don't checkWriterOpen(), write(unsigned) will do it
 
-      setBuffers( sbufs );
+      setBuffers( sbufs, requestedRecordCount );
       write( requestedRecordCount );
    }
 
@@ -321,15 +339,7 @@ namespace e57
          return;
       }
 
-      // Check that requestedRecordCount is not larger than the sbufs
-      if ( requestedRecordCount > sbufs_.at( 0 ).impl()->capacity() )
-      {
-         throw E57_EXCEPTION2( ErrorBadAPIArgument,
-                               "requested=" + toString( requestedRecordCount ) +
-                                  " capacity=" + toString( sbufs_.at( 0 ).impl()->capacity() ) +
-                                  " imageFileName=" + cVector_->imageFileName() +
-                                  " cvPathName=" + cVector_->pathName() );
-      }
+      checkRecordCount( sbufs_, requestedRecordCount );
 
       // Rewind all sbufs so start reading from beginning
       for ( auto &sbuf : sbufs_ )
diff --git a/src/CompressedVectorWriterImpl.h b/src/CompressedVectorWriterImpl.h
index aa585ff..82a3a54 100644
--- a/src/CompressedVectorWriterImpl.h
+++ b/src/CompressedVectorWriterImpl.h
@@ -53,7 +53,10 @@ namespace e57
                                const char *srcFunctionName ) const;
       void checkWriterOpen( const char *srcFileName, int srcLineNumber,
                             const char *srcFunctionName ) const;
-      void setBuffers( std::vector<SourceDestBuffer> &sbufs ); //???needed?
+      void checkRecordCount( const std::vector<SourceDestBuffer> &sbufs,
+                             size_t requestedRecordCount ) const;
+      void setBuffers( std::vector<SourceDestBuffer> &sbufs,
+                       size_t requestedRecordCount ); //???needed?
       size_t totalOutputAvailable() const;
       size_t currentPacketSize() const;
       uint64_t packetWrite();
-- 
2.43.0


From 0e95bd8c88435ad687e1027a3808faa00333e5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:41:13 +0000
Subject: [PATCH 51/63] fix: discard the records of a writer after a failed
 write

When a value could not be stored the fields of the vector had different numbers
of records. Closing the writer stored them nevertheless, and writing again
could go on forever. As documented the vector now has no records.
---
 src/CompressedVectorWriterImpl.cpp | 20 ++++++++++++++++++++
 src/CompressedVectorWriterImpl.h   |  1 +
 2 files changed, 21 insertions(+)

diff --git a/src/CompressedVectorWriterImpl.cpp b/src/CompressedVectorWriterImpl.cpp
index ea46f7d..8ca791e 100644
--- a/src/CompressedVectorWriterImpl.cpp
+++ b/src/CompressedVectorWriterImpl.cpp
@@ -341,6 +341,26 @@ namespace e57
 
       checkRecordCount( sbufs_, requestedRecordCount );
 
+      try
+      {
+         writeRecords( requestedRecordCount );
+      }
+      catch ( ... )
+      {
+         // The encoders may have stopped at different records, so can't continue from here. Close
+         // without setting the records of the CompressedVector.
+         isOpen_ = false;
+         bytestreams_.clear();
+
+         ImageFileImplSharedPtr imf( cVector_->destImageFile_ );
+         imf->decrWriterCount();
+
+         throw;
+      }
+   }
+
+   void CompressedVectorWriterImpl::writeRecords( const size_t requestedRecordCount )
+   {
       // Rewind all sbufs so start reading from beginning
       for ( auto &sbuf : sbufs_ )
       {
diff --git a/src/CompressedVectorWriterImpl.h b/src/CompressedVectorWriterImpl.h
index 82a3a54..b301a6c 100644
--- a/src/CompressedVectorWriterImpl.h
+++ b/src/CompressedVectorWriterImpl.h
@@ -57,6 +57,7 @@ namespace e57
                              size_t requestedRecordCount ) const;
       void setBuffers( std::vector<SourceDestBuffer> &sbufs,
                        size_t requestedRecordCount ); //???needed?
+      void writeRecords( size_t requestedRecordCount );
       size_t totalOutputAvailable() const;
       size_t currentPacketSize() const;
       uint64_t packetWrite();
-- 
2.43.0


From b3c53d308bcf1a25be1db340c19769213b1b31a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:53 +0000
Subject: [PATCH 52/63] fix: do not leave incomplete scans and images in the
 file

NewData3D and NewImage2D appended the scan or image before checking its
values. When a value was refused the file kept an incomplete entry without
the required elements.
---
 src/WriterImpl.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/WriterImpl.cpp b/src/WriterImpl.cpp
index 0bc4ddb..263b733 100644
--- a/src/WriterImpl.cpp
+++ b/src/WriterImpl.cpp
@@ -249,10 +249,6 @@ namespace e57
    {
       StructureNode image( imf_ );
 
-      images2D_.append( image );
-
-      int64_t pos = images2D_.childCount() - 1;
-
       if ( image2DHeader.guid.empty() )
       {
          image2DHeader.guid = generateRandomGUID();
@@ -510,7 +506,10 @@ namespace e57
                          IntegerNode( imf_, static_cast<int64_t>( pcd->CV_WIDTH ) ) );
       }
 
-      return pos;
+      // Append when complete, so nothing is left if something is refused.
+      images2D_.append( image );
+
+      return images2D_.childCount() - 1;
    }
 
    size_t WriterImpl::WriteImage2DData( int64_t imageIndex, Image2DType imageType,
@@ -572,9 +571,6 @@ namespace e57
    int64_t WriterImpl::NewData3D( Data3D &data3DHeader )
    {
       StructureNode scan( imf_ );
-      data3D_.append( scan );
-
-      int64_t pos = data3D_.childCount() - 1;
 
       if ( data3DHeader.guid.empty() )
       {
@@ -1245,7 +1241,10 @@ namespace e57
 
       scan.set( "points", points );
 
-      return pos;
+      // Append when complete, so nothing is left if something is refused.
+      data3D_.append( scan );
+
+      return data3D_.childCount() - 1;
    }
 
    template <typename COORDTYPE>
-- 
2.43.0


From 9c1f2f6f2da8239733e62bc6ae209a257ec56a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:45:07 +0000
Subject: [PATCH 53/63] fix: refuse to add extensions to a file opened for
 reading

ImageFile::extensionsAdd is documented to throw ErrorFileReadOnly. Instead the
extension was added to those of the file.
---
 src/ImageFile.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ImageFile.cpp b/src/ImageFile.cpp
index 1947a44..3886dd1 100644
--- a/src/ImageFile.cpp
+++ b/src/ImageFile.cpp
@@ -507,6 +507,11 @@ See the class discussion at bottom of ImageFile page for more details about name
 */
 void ImageFile::extensionsAdd( const ustring &prefix, const ustring &uri )
 {
+   if ( impl_->isOpen() && !impl_->isWriter() )
+   {
+      throw E57_EXCEPTION2( ErrorFileReadOnly, "fileName=" + impl_->fileName() );
+   }
+
    impl_->extensionsAdd( prefix, uri );
 }
 
-- 
2.43.0


From 6fdb0e9e11daa782e85a6f45354f444e1921bf62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:46:00 +0000
Subject: [PATCH 54/63] fix: do not read other documents named in a file

A schema location in the XML section made the parser open the file or
network address it names. Opening an image file must not access anything
else.
---
 src/E57XmlParser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/E57XmlParser.cpp b/src/E57XmlParser.cpp
index fb2c3db..9609b22 100644
--- a/src/E57XmlParser.cpp
+++ b/src/E57XmlParser.cpp
@@ -332,6 +332,10 @@ void E57XmlParser::init()
    xmlReader->setFeature( XMLUni::fgXercesSchemaFullChecking, true );
    xmlReader->setFeature( XMLUni::fgSAX2CoreNameSpacePrefixes, true );
 
+   // Don't read any other documents, wherever the content of a file points to
+   xmlReader->setFeature( XMLUni::fgXercesLoadSchema, false );
+   xmlReader->setFeature( XMLUni::fgXercesLoadExternalDTD, false );
+
    xmlReader->setContentHandler( this );
    xmlReader->setLexicalHandler( this );
    xmlReader->setErrorHandler( this );
-- 
2.43.0


From 58f801675b54d96956881f4b594472c8bbaf16e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:57:55 +0000
Subject: [PATCH 55/63] fix: seek beyond the end of a memory buffer like in a
 file

Reading beyond the end of the data gave a different error when the data was
in memory than when it was in a file.
---
 src/CheckedFile.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/CheckedFile.cpp b/src/CheckedFile.cpp
index a014773..b755c9f 100644
--- a/src/CheckedFile.cpp
+++ b/src/CheckedFile.cpp
@@ -145,27 +145,27 @@ public:
       return cursorStream_;
    }
 
+   /// Like a file, the position may be set beyond the end, where nothing can be read.
    bool seek( uint64_t offset, int whence )
    {
+      uint64_t newCursor = offset;
+
       if ( whence == SEEK_CUR )
       {
-         cursorStream_ += offset;
-      }
-      else if ( whence == SEEK_SET )
-      {
-         cursorStream_ = offset;
+         newCursor += cursorStream_;
       }
       else if ( whence == SEEK_END )
       {
-         cursorStream_ = streamSize_ - offset;
+         newCursor += streamSize_;
       }
 
-      if ( cursorStream_ > streamSize_ )
+      if ( newCursor > static_cast<uint64_t>( INT64_MAX ) )
       {
-         cursorStream_ = streamSize_;
          return false;
       }
 
+      cursorStream_ = newCursor;
+
       return true;
    }
 
-- 
2.43.0


From 111b6e18f20e6cf7343cd47ed5f099fff93f6b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:26:55 +0000
Subject: [PATCH 56/63] fix: treat absolute and relative path names of buffers
 alike

The path name of a buffer may be absolute. Writing with an absolute path name was refused for all
types of fields but floats, and two buffers for the same field were accepted when one of them had
the absolute and the other the relative name.
---
 src/NodeImpl.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/NodeImpl.cpp b/src/NodeImpl.cpp
index bf224ac..8bb1e7f 100644
--- a/src/NodeImpl.cpp
+++ b/src/NodeImpl.cpp
@@ -309,19 +309,20 @@ void NodeImpl::checkBuffers( const std::vector<SourceDestBuffer> &sdbufs,
                " secondCapacity=" + toString( sdbufs.at( i ).impl()->capacity() ) );
       }
 
-      // Add each pathName to set, error if already in set (a duplicate pathName in sdbufs)
-      if ( !pathNames.insert( pathName ).second )
-      {
-         throw E57_EXCEPTION2( ErrorBufferDuplicatePathName, "this->pathName=" + this->pathName() +
-                                                                " sdbuf.pathName=" + pathName );
-      }
-
       // Check no bad fields in sdbufs
       if ( !isDefined( pathName ) )
       {
          throw E57_EXCEPTION2( ErrorPathUndefined, "this->pathName=" + this->pathName() +
                                                       " sdbuf.pathName=" + pathName );
       }
+
+      // Add each pathName to set, error if already in set (a duplicate pathName in sdbufs).
+      // A pathName may be relative or absolute, the set has the relative form.
+      if ( !pathNames.insert( get( pathName )->relativePathName( shared_from_this() ) ).second )
+      {
+         throw E57_EXCEPTION2( ErrorBufferDuplicatePathName, "this->pathName=" + this->pathName() +
+                                                                " sdbuf.pathName=" + pathName );
+      }
    }
 
    if ( !allowMissing )
-- 
2.43.0


From 126297f72842aae16e04b57200f3631c6e59393f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:27:30 +0000
Subject: [PATCH 57/63] fix: give string buffers the stride their invariant
 demands

SourceDestBuffer::stride() was 0 for buffers of strings, so checkInvariant() failed for all of them.
---
 src/SourceDestBufferImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SourceDestBufferImpl.cpp b/src/SourceDestBufferImpl.cpp
index c33c93b..aaae1fa 100644
--- a/src/SourceDestBufferImpl.cpp
+++ b/src/SourceDestBufferImpl.cpp
@@ -125,7 +125,7 @@ template void SourceDestBufferImpl::setTypeInfo<double>( double *base, size_t st
 SourceDestBufferImpl::SourceDestBufferImpl( ImageFileImplWeakPtr destImageFile,
                                             const ustring &pathName, std::vector<ustring> *b ) :
    destImageFile_( destImageFile ), pathName_( pathName ), memoryRepresentation_( UString ),
-   ustrings_( b )
+   stride_( sizeof( ustring ) ), ustrings_( b )
 {
    /// don't checkImageFileOpen, checkState_ will do it
 
-- 
2.43.0


From 26391df9407dcf593afc9358bf80166c164d7ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:48:15 +0000
Subject: [PATCH 58/63] fix: refuse XML with malformed numbers

Numbers that cannot be parsed, such as "x", "1.5" for an integer or one that is too large, were
silently read as zero, as their leading digits or as the largest number. Such files are now refused
with ErrorBadXMLFormat. White space as the only content of a number element counts as no content.
---
 src/E57XmlParser.cpp    | 51 +++++++++++++++++++++++++++++------------
 src/StringFunctions.cpp |  8 +++----
 src/StringFunctions.h   |  4 ++--
 3 files changed, 42 insertions(+), 21 deletions(-)

diff --git a/src/E57XmlParser.cpp b/src/E57XmlParser.cpp
index 9609b22..f488a14 100644
--- a/src/E57XmlParser.cpp
+++ b/src/E57XmlParser.cpp
@@ -25,6 +25,8 @@
  * DEALINGS IN THE SOFTWARE.
  */
 
+#include <cerrno>
+#include <cstdlib>
 #include <limits>
 #include <locale>
 #include <sstream>
@@ -82,15 +84,34 @@ static_assert( std::is_same<size_t, XMLSize_t>::value,
 
 namespace
 {
+   constexpr char cXmlWhitespace[] = " \t\n\r";
+
    inline int64_t convertStrToLL( const std::string &inStr )
    {
-#if defined( _MSC_VER )
-      return _atoi64( inStr.c_str() );
-#elif defined( __GNUC__ )
-      return strtoll( inStr.c_str(), nullptr, 10 );
-#else
-#error "Need to define string to long long conversion for this compiler"
-#endif
+      char *end = nullptr;
+      errno = 0;
+      const int64_t value = std::strtoll( inStr.c_str(), &end, 10 );
+
+      // Only whitespace may follow
+      const size_t length = end - inStr.c_str();
+      if ( length == 0 || errno == ERANGE ||
+           inStr.find_first_not_of( cXmlWhitespace, length ) != std::string::npos )
+      {
+         throw E57_EXCEPTION2( ErrorBadXMLFormat, "not an integer, value=" + inStr );
+      }
+
+      return value;
+   }
+
+   inline double convertStrToDouble( const std::string &inStr )
+   {
+      double value = 0.;
+      if ( !strToDouble( inStr, value ) )
+      {
+         throw E57_EXCEPTION2( ErrorBadXMLFormat, "not a number, value=" + inStr );
+      }
+
+      return value;
    }
 
    ustring toUString( const XMLCh *const xml_str )
@@ -463,7 +484,7 @@ void E57XmlParser::startElement( const XMLCh *const uri, const XMLCh *const loca
       if ( isAttributeDefined( attributes, att_scale ) )
       {
          ustring scale_str = lookupAttribute( attributes, att_scale );
-         pi.scale = strToDouble( scale_str ); //??? use exact rounding library
+         pi.scale = convertStrToDouble( scale_str ); //??? use exact rounding library
       }
       else
       {
@@ -474,7 +495,7 @@ void E57XmlParser::startElement( const XMLCh *const uri, const XMLCh *const loca
       if ( isAttributeDefined( attributes, att_offset ) )
       {
          ustring offset_str = lookupAttribute( attributes, att_offset );
-         pi.offset = strToDouble( offset_str ); //??? use exact rounding library
+         pi.offset = convertStrToDouble( offset_str ); //??? use exact rounding library
       }
       else
       {
@@ -520,7 +541,7 @@ void E57XmlParser::startElement( const XMLCh *const uri, const XMLCh *const loca
       if ( isAttributeDefined( attributes, att_minimum ) )
       {
          ustring minimum_str = lookupAttribute( attributes, att_minimum );
-         pi.floatMinimum = strToDouble( minimum_str ); //??? use exact rounding library
+         pi.floatMinimum = convertStrToDouble( minimum_str ); //??? use exact rounding library
       }
       else
       {
@@ -538,7 +559,7 @@ void E57XmlParser::startElement( const XMLCh *const uri, const XMLCh *const loca
       if ( isAttributeDefined( attributes, att_maximum ) )
       {
          ustring maximum_str = lookupAttribute( attributes, att_maximum );
-         pi.floatMaximum = strToDouble( maximum_str ); //??? use exact rounding library
+         pi.floatMaximum = convertStrToDouble( maximum_str ); //??? use exact rounding library
       }
       else
       {
@@ -781,7 +802,7 @@ void E57XmlParser::endElement( const XMLCh *const uri, const XMLCh *const localN
          int64_t intValue = 0;
          bool foundValue = false;
 
-         if ( pi.childText.length() > 0 )
+         if ( pi.childText.find_first_not_of( cXmlWhitespace ) != std::string::npos )
          {
             intValue = convertStrToLL( pi.childText );
             foundValue = true;
@@ -804,7 +825,7 @@ void E57XmlParser::endElement( const XMLCh *const uri, const XMLCh *const localN
          int64_t intValue = 0;
          bool foundValue = false;
 
-         if ( pi.childText.length() > 0 )
+         if ( pi.childText.find_first_not_of( cXmlWhitespace ) != std::string::npos )
          {
             intValue = convertStrToLL( pi.childText );
             foundValue = true;
@@ -827,9 +848,9 @@ void E57XmlParser::endElement( const XMLCh *const uri, const XMLCh *const localN
          double floatValue = 0.0;
          bool foundValue = false;
 
-         if ( pi.childText.length() > 0 )
+         if ( pi.childText.find_first_not_of( cXmlWhitespace ) != std::string::npos )
          {
-            floatValue = strToDouble( pi.childText );
+            floatValue = convertStrToDouble( pi.childText );
             foundValue = true;
          }
 
diff --git a/src/StringFunctions.cpp b/src/StringFunctions.cpp
index 4e9d230..681c8c5 100644
--- a/src/StringFunctions.cpp
+++ b/src/StringFunctions.cpp
@@ -64,13 +64,13 @@ namespace e57
    template std::string floatingPointToStr<float>( float value, int precision );
    template std::string floatingPointToStr<double>( double value, int precision );
 
-   double strToDouble( const std::string &inStr )
+   bool strToDouble( const std::string &inStr, double &value )
    {
       std::istringstream iss{ inStr };
       iss.imbue( std::locale::classic() );
-      double res = 0.;
-      iss >> res;
-      return res;
+
+      // Only whitespace may follow
+      return ( iss >> value ) && ( iss.eof() || ( iss >> std::ws ).eof() );
    }
 
    bool nextCodePoint( const std::string &str, size_t &pos, uint32_t &codePoint )
diff --git a/src/StringFunctions.h b/src/StringFunctions.h
index 4156244..99ebdd5 100644
--- a/src/StringFunctions.h
+++ b/src/StringFunctions.h
@@ -203,8 +203,8 @@ namespace e57
    extern template std::string floatingPointToStr<double>( double value, int precision );
 
    /// Parse a double according the the classic ("C") locale.
-   /// @return The parsed double or 0.0 on error.
-   double strToDouble( const std::string &inStr );
+   /// @return false if the string is not a number, or the number is too large for a double.
+   bool strToDouble( const std::string &inStr, double &value );
 
    /// Get the code point that starts at a position in a UTF-8 string and move on to the next one.
    /// @return false if the string is not valid UTF-8 there.
-- 
2.43.0


From 1fef4309176c0f64fbca603183b40f00760678ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:52:40 +0000
Subject: [PATCH 59/63] fix: refuse negative sizes and positions in the XML

A blob with a negative length and a compressed vector with a negative record count were accepted and
reported that number as their size.
---
 src/E57XmlParser.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/E57XmlParser.cpp b/src/E57XmlParser.cpp
index f488a14..0d16959 100644
--- a/src/E57XmlParser.cpp
+++ b/src/E57XmlParser.cpp
@@ -103,6 +103,18 @@ namespace
       return value;
    }
 
+   /// Convert a size or position, which is never negative
+   inline int64_t convertStrToSize( const std::string &inStr )
+   {
+      const int64_t value = convertStrToLL( inStr );
+      if ( value < 0 )
+      {
+         throw E57_EXCEPTION2( ErrorBadXMLFormat, "negative, value=" + inStr );
+      }
+
+      return value;
+   }
+
    inline double convertStrToDouble( const std::string &inStr )
    {
       double value = 0.;
@@ -597,12 +609,12 @@ void E57XmlParser::startElement( const XMLCh *const uri, const XMLCh *const loca
       // fileOffset is required to be defined
       ustring fileOffset_str = lookupAttribute( attributes, att_fileOffset );
 
-      pi.fileOffset = convertStrToLL( fileOffset_str );
+      pi.fileOffset = convertStrToSize( fileOffset_str );
 
       // length is required to be defined
       ustring length_str = lookupAttribute( attributes, att_length );
 
-      pi.length = convertStrToLL( length_str );
+      pi.length = convertStrToSize( length_str );
 
       stack_.push( pi );
    }
@@ -721,12 +733,12 @@ void E57XmlParser::startElement( const XMLCh *const uri, const XMLCh *const loca
       // fileOffset is required to be defined
       ustring fileOffset_str = lookupAttribute( attributes, att_fileOffset );
 
-      pi.fileOffset = convertStrToLL( fileOffset_str );
+      pi.fileOffset = convertStrToSize( fileOffset_str );
 
       // recordCount is required to be defined
       ustring recordCount_str = lookupAttribute( attributes, att_recordCount );
 
-      pi.recordCount = convertStrToLL( recordCount_str );
+      pi.recordCount = convertStrToSize( recordCount_str );
 
       // Create container now, so can hold children
       std::shared_ptr<CompressedVectorNodeImpl> cv_ni( new CompressedVectorNodeImpl( imf_ ) );
-- 
2.43.0


From 6e22e432223f0c244960c029080b0ddd91eeee4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:23:01 +0000
Subject: [PATCH 60/63] fix: keep the intensity limits of a scan with float
 intensities

The limits of the intensityLimits element were replaced by those of the
intensity field, if that is a float or if the maximum is zero.
---
 src/ReaderImpl.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/ReaderImpl.cpp b/src/ReaderImpl.cpp
index 47a38c4..c3e984d 100644
--- a/src/ReaderImpl.cpp
+++ b/src/ReaderImpl.cpp
@@ -1303,7 +1303,9 @@ namespace e57
       data3DHeader.intensityLimits.intensityMinimum = 0.0;
       data3DHeader.intensityLimits.intensityMaximum = 0.0;
 
-      if ( scan.isDefined( "intensityLimits" ) )
+      const bool haveIntensityLimits = scan.isDefined( "intensityLimits" );
+
+      if ( haveIntensityLimits )
       {
          const StructureNode intbox( scan.get( "intensityLimits" ) );
          const auto intensityMaximumProto = intbox.get( "intensityMaximum" );
@@ -1342,7 +1344,7 @@ namespace e57
             {
                const IntegerNode integerIntensity( intensityProto );
 
-               if ( data3DHeader.intensityLimits.intensityMaximum == 0.0 )
+               if ( !haveIntensityLimits )
                {
                   data3DHeader.intensityLimits.intensityMinimum =
                      static_cast<double>( integerIntensity.minimum() );
@@ -1361,7 +1363,7 @@ namespace e57
                double scale = scaledIntensity.scale();
                double offset = scaledIntensity.offset();
 
-               if ( data3DHeader.intensityLimits.intensityMaximum == 0.0 )
+               if ( !haveIntensityLimits )
                {
                   const int64_t minimum = scaledIntensity.minimum();
                   const int64_t maximum = scaledIntensity.maximum();
@@ -1382,8 +1384,11 @@ namespace e57
             {
                const FloatNode floatIntensity( intensityProto );
 
-               data3DHeader.intensityLimits.intensityMinimum = floatIntensity.minimum();
-               data3DHeader.intensityLimits.intensityMaximum = floatIntensity.maximum();
+               if ( !haveIntensityLimits )
+               {
+                  data3DHeader.intensityLimits.intensityMinimum = floatIntensity.minimum();
+                  data3DHeader.intensityLimits.intensityMaximum = floatIntensity.maximum();
+               }
 
                if ( floatIntensity.precision() == PrecisionSingle )
                {
-- 
2.43.0


From 993e00709d2a8709c96ac1a537b29aa293a24fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:23:01 +0000
Subject: [PATCH 61/63] fix: take the colour limits of any field type as they
 are

Negative or fractional limits and limits above 65535 of the colour fields
came out as other values, and the conversion of float limits that do not
fit into 16 bits was undefined.
---
 src/ReaderImpl.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/ReaderImpl.cpp b/src/ReaderImpl.cpp
index c3e984d..7e68250 100644
--- a/src/ReaderImpl.cpp
+++ b/src/ReaderImpl.cpp
@@ -168,6 +168,14 @@ namespace e57
       return true;
    }
 
+   /// Colours are stored as uint16_t, so limits outside of its range are of no use.
+   static double _colourLimit( double limit )
+   {
+      constexpr double cMax = std::numeric_limits<uint16_t>::max();
+
+      return std::min( std::max( limit, 0.0 ), cMax );
+   }
+
    /// Possibly get min/max from the colour node itself instead of the colorLimits.
    void _readColourRanges( const std::string &protoName, const StructureNode &proto,
                            double &colourMin, double &colourMax )
@@ -183,8 +191,8 @@ namespace e57
          {
             const IntegerNode integerColour( colourProto );
 
-            colourMin = static_cast<uint16_t>( integerColour.minimum() );
-            colourMax = static_cast<uint16_t>( integerColour.maximum() );
+            colourMin = _colourLimit( static_cast<double>( integerColour.minimum() ) );
+            colourMax = _colourLimit( static_cast<double>( integerColour.maximum() ) );
          }
          else if ( colourProto.type() == TypeScaledInteger )
          {
@@ -194,15 +202,15 @@ namespace e57
             const int64_t minimum = scaledColour.minimum();
             const int64_t maximum = scaledColour.maximum();
 
-            colourMin = static_cast<uint16_t>( minimum ) * scale + offset;
-            colourMax = static_cast<uint16_t>( maximum ) * scale + offset;
+            colourMin = _colourLimit( static_cast<double>( minimum ) * scale + offset );
+            colourMax = _colourLimit( static_cast<double>( maximum ) * scale + offset );
          }
          else if ( colourProto.type() == TypeFloat )
          {
             const FloatNode floatColour( colourProto );
 
-            colourMin = static_cast<uint16_t>( floatColour.minimum() );
-            colourMax = static_cast<uint16_t>( floatColour.maximum() );
+            colourMin = _colourLimit( floatColour.minimum() );
+            colourMax = _colourLimit( floatColour.maximum() );
          }
       }
    }
-- 
2.43.0


From 6c9549b35e270d859dc7d5e295f0c810c23cc345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:51:37 +0000
Subject: [PATCH 62/63] fix: give the parts of a numeric element name

elementNameParse accepted a name such as "12" but left both results as they
were, so the caller saw whatever the strings held before.
---
 src/ImageFileImpl.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ImageFileImpl.cpp b/src/ImageFileImpl.cpp
index cb64368..82a7ac9 100644
--- a/src/ImageFileImpl.cpp
+++ b/src/ImageFileImpl.cpp
@@ -789,6 +789,8 @@ namespace e57
             }
          }
 
+         prefix = "";
+         localPart = elementName;
          return;
       }
 
-- 
2.43.0


From f78ad8579b3ad6840359a5889c6b2ccca5e7d03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:51:59 +0000
Subject: [PATCH 63/63] fix: refuse a scaled integer whose scale is zero

The documentation asks for scale != 0 and names ErrorBadAPIArgument, but a
node with a scale of zero was created. Such a node breaks its own invariant.
---
 src/ScaledIntegerNode.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/ScaledIntegerNode.cpp b/src/ScaledIntegerNode.cpp
index eb99169..98a94ef 100644
--- a/src/ScaledIntegerNode.cpp
+++ b/src/ScaledIntegerNode.cpp
@@ -34,6 +34,17 @@
 
 using namespace e57;
 
+namespace
+{
+   void checkScale( double scale )
+   {
+      if ( scale == 0 )
+      {
+         throw E57_EXCEPTION2( ErrorBadAPIArgument, "scale=" + toString( scale ) );
+      }
+   }
+}
+
 // Put this function first so we can reference the code in doxygen using @skip
 /*!
 @brief Check whether ScaledIntegerNode class invariant is true
@@ -154,6 +165,7 @@ ScaledIntegerNode::ScaledIntegerNode( const ImageFile &destImageFile, int64_t ra
       new ScaledIntegerNodeImpl( destImageFile.impl(), rawValue, minimum, maximum, scale, offset ) )
 {
    impl_->validateValue();
+   checkScale( scale );
 }
 
 ScaledIntegerNode::ScaledIntegerNode( const ImageFile &destImageFile, int rawValue, int64_t minimum,
@@ -162,6 +174,7 @@ ScaledIntegerNode::ScaledIntegerNode( const ImageFile &destImageFile, int rawVal
                                      minimum, maximum, scale, offset ) )
 {
    impl_->validateValue();
+   checkScale( scale );
 }
 
 ScaledIntegerNode::ScaledIntegerNode( const ImageFile &destImageFile, int rawValue, int minimum,
@@ -171,6 +184,7 @@ ScaledIntegerNode::ScaledIntegerNode( const ImageFile &destImageFile, int rawVal
                                      static_cast<int64_t>( maximum ), scale, offset ) )
 {
    impl_->validateValue();
+   checkScale( scale );
 }
 
 /*!
-- 
2.43.0

