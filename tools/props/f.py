F = 'source/fern/feature/core/'
C = 'source/fern/core/'
N = 'Trusts clang/LLVM normalisation. boost::multi_array is replaced by a stand-in whose storage is an opaque function of element type and shape, so what boost itself does is assumed, not decided.'
PROPS = [
    dict(id='F01', title='Collections describe, address and clone their cells consistently',
         statement='For every collection fern ships (arrays, masked arrays, rasters, masked rasters, array references, vectors, masked scalars, points, scalars): size is the number of cells, size per dimension is the extent of that dimension, index is the row-major position, get refers to the cell at that position both for reading and for writing, clone gives a new collection of the same shape (and the same transformation for rasters) with the requested element type and value, cell_size and cell_area come from the transformation, and the traits state the category, masking and element types of the collection.',
         over=['inputs', 'configurations'], quant='every collection, element type, number of dimensions, shape, index and value',
         why='Tests use square or tiny collections and a few element types; swapped dimensions, a wrong stride, an overload that is never instantiated or a wrong trait in one of about sixty overloads is not visible there, and every algorithm reaches its data through these functions.',
         files=[F + 'data_customization_point/array.h', F + 'data_customization_point/masked_array.h', F + 'data_customization_point/raster.h', F + 'data_customization_point/masked_raster.h', F + 'data_customization_point/array_reference.h', F + 'data_customization_point/masked_scalar.h', C + 'data_customization_point/scalar.h', C + 'data_customization_point/vector.h', C + 'data_customization_point/point.h', F + 'data_type_traits/array.h', F + 'data_type_traits/masked_raster.h', C + 'data_type_traits/scalar.h'],
         mech=[('overloads of size, index, get, clone, cell_size, cell_area, set_transformation per collection', F + 'data_customization_point'), ('DataTypeTraits specialisations', F + 'data_type_traits')],
         observe=['addresses and values as functions of shape and index', 'type traits'],
         technique='symbolic-expression normal forms from LLVM IR compared with a reference expression per overload; compile-time witnesses for the traits', note='Decides each listed overload for every shape, index and value. ' + N),
    dict(id='F02', title='Arrays hold the values, and masked values the mask, they were given',
         statement='Every constructor of Array and MaskedArray gives the requested shape and fills all cells with the given (or default) value or the listed values in order, with nothing masked; fill sets every cell; has_masked_values is true exactly when some cell is masked; set_mask masks exactly the cells that hold the given value and leaves other masks alone; mask writes one of two values per cell according to the mask; mask_all masks everything; MaskedScalar keeps value and mask, and compares both.',
         over=['inputs', 'configurations'], quant='every shape, value, mask and listed element type',
         why='Tests build one or two small arrays; a loop that misses the first or last cell, that resets masks or that leaves cells unfilled in one constructor shows only for other shapes and contents.',
         files=[F + 'array.h', F + 'masked_array.h', F + 'masked_scalar.h'],
         mech=[('constructors and fill', F + 'array.h'), ('has_masked_values, set_mask, mask, mask_all', F + 'masked_array.h'), ('operator==, value, mask', F + 'masked_scalar.h')],
         observe=['stores per cell and the mask per cell', 'returned values'],
         technique='loop summaries (one generic iteration, carried values, exits) from LLVM IR compared with a reference loop for every ordering of the compared values', note='Decides each listed member for every shape and content. ' + N),
]
