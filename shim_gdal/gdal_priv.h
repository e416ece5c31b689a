// Stand-in for GDAL's header: every function is declared and left opaque.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
typedef enum { CE_None = 0, CE_Debug = 1, CE_Warning = 2, CE_Failure = 3, CE_Fatal = 4 } CPLErr;
typedef enum { GDT_Unknown = 0, GDT_Byte = 1, GDT_UInt16 = 2, GDT_Int16 = 3, GDT_UInt32 = 4, GDT_Int32 = 5, GDT_Float32 = 6, GDT_Float64 = 7, GDT_CInt16 = 8, GDT_CInt32 = 9, GDT_CFloat32 = 10, GDT_CFloat64 = 11, GDT_TypeCount = 12 } GDALDataType;
typedef enum { GA_ReadOnly = 0, GA_Update = 1 } GDALAccess;
typedef enum { GF_Read = 0, GF_Write = 1 } GDALRWFlag;
struct GDALRasterIOExtraArg;
typedef long long GSpacing;
typedef void* GDALDatasetH; typedef void* GDALDriverH;
class GDALRasterBand; class GDALDataset; class GDALDriver; struct GDALColorEntry { short c1, c2, c3, c4; }; class GDALColorTable { public: int GetColorEntryCount() const; GDALColorEntry const* GetColorEntry(int) const; };
#define GMF_ALL_VALID 1
#define GMF_PER_DATASET 2
#define GMF_ALPHA 4
#define GMF_NODATA 8
typedef enum { GCI_Undefined = 0, GCI_GrayIndex = 1, GCI_PaletteIndex = 2, GCI_RedBand = 3, GCI_GreenBand = 4, GCI_BlueBand = 5, GCI_AlphaBand = 6 } GDALColorInterp;
double vpp_no_data(GDALRasterBand const*) __attribute__((nothrow, const)); int vpp_has_no_data(GDALRasterBand const*) __attribute__((nothrow, const));
int vpp_nr_cols() __attribute__((nothrow, const)); int vpp_nr_rows() __attribute__((nothrow, const));
class GDALRasterBand {
public:
    GDALDataType GetRasterDataType();
    int GetXSize() { return vpp_nr_cols(); } int GetYSize() { return vpp_nr_rows(); }
    double GetNoDataValue(int* has = nullptr) { if(has) *has = vpp_has_no_data(this); return vpp_no_data(this); }
    CPLErr RasterIO(GDALRWFlag, int, int, int, int, void*, int, int, GDALDataType, GSpacing, GSpacing, GDALRasterIOExtraArg* = nullptr);
    CPLErr GetStatistics(int, int, double*, double*, double*, double*);
    int GetMaskFlags(); GDALRasterBand* GetMaskBand();
    GDALColorTable* GetColorTable(); GDALColorInterp GetColorInterpretation(); int GetBand(); GDALAccess GetAccess(); GDALDataset* GetDataset(); double GetMinimum(int* = nullptr); double GetMaximum(int* = nullptr); double GetOffset(int* = nullptr); double GetScale(int* = nullptr); char const* GetUnitType(); char** GetCategoryNames(); int GetOverviewCount(); GDALRasterBand* GetOverview(int); void GetBlockSize(int*, int*); CPLErr ReadBlock(int, int, void*); CPLErr WriteBlock(int, int, void*); CPLErr FlushCache(bool = false); CPLErr SetNoDataValue(double); CPLErr ComputeRasterMinMax(int, double*); char const* GetDescription() const; char const* GetMetadataItem(char const*, char const* = nullptr); char** GetMetadata(char const* = nullptr);
};
class GDALDataset {
public:
    int GetRasterXSize() { return vpp_nr_cols(); } int GetRasterYSize() { return vpp_nr_rows(); } int GetRasterCount();
    GDALRasterBand* GetRasterBand(int);
    CPLErr GetGeoTransform(double*); char const* GetDescription() const; GDALDriver* GetDriver(); char const* GetProjectionRef() const; GDALAccess GetAccess() const; CPLErr FlushCache(bool = false); int GetShared() const; void MarkAsShared(); int Reference(); int Dereference(); char** GetFileList(); char const* GetMetadataItem(char const*, char const* = nullptr); char** GetMetadata(char const* = nullptr); int GetLayerCount();
};
class GDALDriver { public: char const* GetDescription(); };
class GDALDriverManager { public: int GetDriverCount(); GDALDriver* GetDriver(int); void DeregisterDriver(GDALDriver*); };
extern "C" {
typedef void (*CPLErrorHandler)(CPLErr, int, char const*);
void CPLQuietErrorHandler(CPLErr, int, char const*);
CPLErrorHandler CPLSetErrorHandler(CPLErrorHandler);
void GDALAllRegister();
char const* GDALGetDataTypeName(GDALDataType);
int GDALGetDataTypeSize(GDALDataType); int GDALGetDataTypeSizeBits(GDALDataType); int GDALGetDataTypeSizeBytes(GDALDataType); int GDALDataTypeIsComplex(GDALDataType); int GDALDataTypeIsInteger(GDALDataType); int GDALDataTypeIsFloating(GDALDataType); int GDALDataTypeIsSigned(GDALDataType);
GDALDatasetH GDALOpenShared(char const*, GDALAccess); GDALDatasetH GDALOpenEx(char const*, unsigned int, char const* const*, char const* const*, char const* const*); void GDALFlushCache(GDALDatasetH); int GDALReferenceDataset(GDALDatasetH); int GDALReleaseDataset(GDALDatasetH); void CPLErrorReset(); CPLErr CPLGetLastErrorType(); int CPLGetLastErrorNo(); char const* CPLGetLastErrorMsg(); void CPLPushErrorHandler(CPLErrorHandler); void CPLPopErrorHandler(); void GDALDestroyDriverManager(); int GDALGetDriverCount();
GDALDatasetH GDALOpen(char const*, GDALAccess);
CPLErr GDALClose(GDALDatasetH);
void GDALDestroyDriver(GDALDriverH);
}
GDALDriverManager* GetGDALDriverManager();
