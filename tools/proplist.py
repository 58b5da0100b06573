prop('P01', 'Vector algebra computes its textbook definitions and checks sizes',
     'Every vector operation (dot product, norm, fill, scatter by ordinals, copy, scale, add, linear update, sum, maximum, minimum, strided extraction) leaves exactly its mathematical result in its output and changes nothing else. '
     'Operands of different length, empty vectors where forbidden, and non-finite multipliers raise an error instead of producing a value. No element outside the operands is read or written.',
     'all vector lengths, all element values, all ordinal lists, all multipliers',
     'The unit tests use one or two fixed vectors of fixed length; they cannot reach every length, boundary index, or mismatched pair of sizes.',
     ['src/BLAS1.hpp'], [('vector kernels and their size guards', 'src/BLAS1.hpp')])
prop('P02', 'Batched matrix and block-matrix algebra is exact for all shapes',
     'Batched matrix-vector and matrix-matrix products, updates, fills, strided extraction and insertion, identity construction and small-matrix inversion give the mathematical result for every entry of every item in the batch, in both transpose modes. '
     'Incompatible shapes and unknown transpose flags raise an error. Entries outside the addressed stride are unchanged.',
     'all batch sizes, all matrix dimensions, all values (inversion: all matrices with non-zero leading minors)',
     'Tests run fixed small batches with constant entries; index-transposition, stride and coefficient errors that cancel on symmetric or constant data go unseen.',
     ['src/BLAS2.hpp', 'src/BLAS3.hpp'], [('batched kernels', 'src/BLAS2.hpp'), ('small dense inverse', 'src/BLAS3.hpp')],
     'Assumed contract for the external small-matrix LU and triangular solves used by inversion.')
prop('P03', 'Sparse matrix operations equal their dense definitions',
     'Sparse matrix-vector product, row sum, row scaling, block-to-point and point-to-block conversion, matrix product, matrix difference with row offset, and condensation produce the same matrix or vector as the dense definition on the stored entries, for point and block storage. '
     'Incompatible shapes raise an error. No access leaves the row map, column or entry arrays.',
     'all row maps, column lists and entries, all matrix sizes, several block shapes',
     'The tests use one mesh-like matrix per operation with equal-length rows and square blocks; empty rows, rectangular blocks, unsorted columns and last-row boundaries are not reached.',
     ['src/PlatoMathHelpers.hpp', 'src/PlatoMathFunctors.hpp', 'src/alg/CrsMatrix.hpp'], [('sparse kernels', 'src/PlatoMathHelpers.hpp'), ('matrix container', 'src/alg/CrsMatrix.hpp')],
     'Operations that go through the external sparse-product and sparse-addition kernels, the in-row sort, and point-to-block conversion are only checked by running the compiled code against the dense oracle on bounded random matrices (labelled, not counted as proved).')
prop('P04', 'Dirichlet constraints keep the constrained system equivalent',
     'Applying prescribed values to a linear system leaves every constrained row and column equal to the identity, sets the constrained right-hand side to the scaled prescribed value, and moves the known part of every free row to the right-hand side, leaving all other entries unchanged. '
     'A system with a symmetric sparsity pattern and values stays symmetric, so the solution of the constrained system takes the prescribed values and satisfies the free equations. '
     'This holds for point and block storage, every scale, and any set of distinct constrained degrees of freedom.',
     'all symmetric sparse systems, all sets of constrained degrees of freedom and values, all scales, point and block storage',
     'The tests constrain one fixed set of dofs of one box mesh; neighbouring constrained dofs, a non-unit scale with non-zero values and block off-diagonals are not reached.',
     ['src/ApplyConstraints.hpp'], [('point constraints', 'src/ApplyConstraints.hpp'), ('block constraints', 'src/ApplyConstraints.hpp')],
     'The loop over constrained degrees of freedom is proved with an explicit loop invariant given by the contract; the closing statement about solutions (which exchanges two sums) is only replayed on the compiled code.')
prop('P05', 'Element kinematics give the symmetric gradient in Voigt order',
     'For every element, the strain is the symmetric gradient of the nodal displacement in Voigt order with doubled shears, and every companion gradient (pressure, temperature, electric potential with reversed sign, complex parts) is the gradient of its own degree of freedom. '
     'The result does not depend on what the output held before. Nodal interpolation is the basis-weighted sum of exactly the selected degrees of freedom.',
     'all element counts, all nodal states, all basis gradients, 1D to 3D and every degree-of-freedom layout the physics use',
     'Tests use unit gradients of one box mesh, zero-initialised outputs and fields linear in one direction, so swapped shears, wrong strides and stale outputs are not seen.',
     ['src/Kinematics.hpp', 'src/TMKinematics.hpp', 'src/EMKinematics.hpp', 'src/ComplexStrain.hpp', 'src/Strain.hpp', 'src/PressureGradient.hpp', 'src/InterpolateFromNodal.hpp', 'src/InterpolateGradientFromScalarNodal.hpp', 'src/StrainDivergence.hpp'],
     [('element strain and gradients', 'src/Kinematics.hpp'), ('complex strain', 'src/ComplexStrain.hpp')])
prop('P06', 'Element forces are the exact transpose of the element kinematics',
     'The nodal forces of a stress, flux, pressure or projected field are the volume-weighted, scaled contraction with the basis gradient (or basis) at each node, added to exactly the addressed degrees of freedom and to no others. '
     'Force times displacement equals volume times stress times strain for every state.',
     'all element counts, stresses, gradients, volumes and scale factors, 1D to 3D and several degree-of-freedom layouts',
     'Tests use one mesh with constant stress; off-diagonal terms, offset layouts and the duality identity are sampled at one point.',
     ['src/StressDivergence.hpp', 'src/FluxDivergence.hpp', 'src/PressureDivergence.hpp', 'src/ProjectToNode.hpp', 'src/ComplexStressDivergence.hpp'],
     [('divergence kernels', 'src/StressDivergence.hpp'), ('projection to nodes', 'src/ProjectToNode.hpp')])
prop('P07', 'Isotropic constitutive laws, deviators and stress invariants are exact',
     'Cauchy and deviatoric stress, deviatoric strain, elastic work, stabilisation, tensor products, von Mises stress and elastic moduli equal their isotropic-elasticity formulas for every strain and modulus, in 1D, plane strain and 3D. '
     'Deviators are trace free, and elastic work is never negative for non-negative moduli.',
     'all strains, stresses and moduli, all element counts',
     'Tests store the numbers of one or two strain states (and two of them store wrong numbers, see the known findings).',
     ['src/ComputeCauchyStress.hpp', 'src/ComputeDeviatoricStrain.hpp', 'src/ComputeDeviatoricStress.hpp', 'src/ComputeElasticWork.hpp', 'src/ComputeStabilization.hpp', 'src/DoubleDotProduct2ndOrderTensor.hpp', 'src/DotProduct.hpp', 'src/VonMisesYieldFunction.hpp', 'src/IsotropicMaterialUtilities.hpp'],
     [('constitutive kernels', 'src/ComputeCauchyStress.hpp'), ('moduli', 'src/IsotropicMaterialUtilities.hpp')],
     'Two listed known findings (1D and 3D Cauchy stress) are excluded; companion contracts still pin the code to the law or to exactly that deviation.')
prop('P08', 'Penalisation, projection and weighting follow the stated laws and inputs',
     'The SIMP, RAMP and Heaviside penalties, the Heaviside and tanh projections, and the cell mass and density functionals equal their formulas for every control, with parameters taken from the input or the documented default when absent, after any continuation step. '
     'Weighting multiplies every entry of the addressed output by the penalty of the mean nodal control, and nothing else. The SIMP value stays between the ersatz and the full material.',
     'all controls, all parameter values, every combination of given and absent inputs, all cell counts, 1D to 3D',
     'Tests evaluate a few controls with all parameters given; defaults, absent map entries, continuation caps and per-cell means are not sampled.',
     ['src/Simp.hpp', 'src/Ramp.hpp', 'src/Heaviside.hpp', 'src/ApplyWeighting.hpp', 'src/ApplyPenalty.hpp', 'src/ApplyProjection.hpp', 'src/HeavisideProjection.hpp', 'src/HyperbolicTangentProjection.hpp', 'src/Plato_TopOptFunctors.hpp'],
     [('penalty laws', 'src/Simp.hpp'), ('weighting', 'src/ApplyWeighting.hpp')],
     'pow, sin, exp and tanh are uninterpreted functions with their usual algebraic facts; Teuchos::ParameterList by an assumed contract.')
prop('P09', 'J2 plasticity updates are consistent with their residuals',
     'The elastic and plastic local residuals equal the J2 return-mapping equations in 2D plane strain and 3D, and the local-state update makes the matching residual vanish for every stress, state and hardening value. '
     'The elastic strain is the total strain minus plastic and thermal strain, and every getter reads its own slot of the local state. The yield-surface normal is the deviatoric relative stress divided by its norm.',
     'all stresses, strains, local states, multipliers and hardening parameters, all cell counts, 2D and 3D',
     'Tests store the numbers of one local state; slot offsets, engineering-shear factors and the out-of-plane term only show for other states.',
     ['src/J2PlasticityUtilities.hpp', 'src/ThermoPlasticityUtilities.hpp'], [('J2 residual and update', 'src/J2PlasticityUtilities.hpp'), ('elastic strain', 'src/ThermoPlasticityUtilities.hpp')])
prop('P10', 'Quadrature is exact to its degree and linear bases are nodal',
     'Every quadrature rule integrates all polynomials up to its declared degree exactly over the reference simplex, and unsupported degrees, dimensions and wrongly sized outputs raise an error. '
     'The linear basis functions are one at their own vertex and zero at the others, sum to one, and their reported gradients are their derivatives.',
     'all monomials up to the declared degree in 1D, 2D and 3D, all evaluation points, all output sizes',
     'Tests integrate a few functions; a wrong weight or point coordinate that keeps the total volume stays hidden.',
     ['src/alg/Cubature.cpp', 'src/alg/Basis.cpp', 'src/LinearTetCubRuleDegreeOne.hpp'], [('quadrature tables', 'src/alg/Cubature.cpp'), ('basis', 'src/alg/Basis.cpp')],
     'Exactness is to 1e-12 because the tables hold decimal constants.')
prop('P11', 'Time integrators satisfy their update rule and exact derivatives',
     'The Newmark and trapezoid residuals equal the stated velocity and acceleration updates for every state, step size and coefficient, and every reported derivative is the exact partial derivative of that residual. '
     'A missing Newmark coefficient raises an error.',
     'all states, all positive step sizes and coefficients, all vector lengths',
     'Tests use one coefficient set and step, for which swapped or missing factors of gamma, beta and the step can cancel.',
     ['src/hyperbolic/Newmark.hpp', 'src/parabolic/TrapezoidIntegrator.hpp'], [('Newmark residuals and partials', 'src/hyperbolic/Newmark.hpp'), ('trapezoid rule', 'src/parabolic/TrapezoidIntegrator.hpp')])
prop('P12', 'Frequency-domain dynamics terms equal their complex-arithmetic definition',
     'Inertial forces, Rayleigh damping (plain, complex and adjoint), complex elastic and inertial energies, the structural dynamics cell residual, interpolated states and the response misfit equal their definitions for every state, frequency and coefficient. '
     'The adjoint damping operator is the exact transpose of the damping operator. Default damping coefficients apply when the input gives none.',
     'all states, all frequencies and coefficients, all cell counts, 1D to 3D',
     'Tests use unit states with equal real and imaginary parts, for which sign and real/imaginary swaps cancel.',
     ['src/InertialForces.hpp', 'src/RayleighDamping.hpp', 'src/ComplexRayleighDamping.hpp', 'src/AdjointComplexRayleighDamping.hpp', 'src/ComplexElasticEnergy.hpp', 'src/ComplexInertialEnergy.hpp', 'src/StructuralDynamicsCellResidual.hpp', 'src/ComputeFrequencyResponseMisfit.hpp', 'src/StateValues.hpp'],
     [('damping', 'src/ComplexRayleighDamping.hpp'), ('cell residual', 'src/StructuralDynamicsCellResidual.hpp')])
prop('P13', 'Material input becomes exactly the stated tensor, stiffness and law',
     'Every tensor, stiffness, conductivity and scalar law read from a material input list holds each given coefficient at its symmetric position and zero elsewhere, isotropic stiffness and moduli equal their elasticity formulas, and temperature tables become the corresponding quadratic law. '
     'Absent optional inputs take their default and absent required inputs raise an error. Heat flux and thermal content built from them equal their definitions at every cell, and the Voigt map names the tensor position of each Voigt term.',
     'every combination of given and absent coefficients, all values, all temperatures, 1D to 3D',
     'Tests read a few complete inputs; partially given coefficients, off-diagonal slots and the lower dimensions are not sampled.',
     ['src/MaterialModel.hpp', 'src/MaterialModel.cpp', 'src/Rank4Voigt.cpp', 'src/IsotropicStiffness.cpp', 'src/ThermalConductivityMaterial.hpp', 'src/ThermalMassMaterial.hpp', 'src/ThermoelasticMaterial.hpp', 'src/ThermalFlux.hpp', 'src/ThermalContent.hpp', 'src/VoigtMap.hpp', 'src/ParseTools.hpp'],
     [('material input', 'src/MaterialModel.cpp'), ('stiffness', 'src/IsotropicStiffness.cpp')],
     'Teuchos::ParameterList by an assumed contract.')
prop('P16', 'Eigenvalues and tensile energy are those of the given tensor',
     'The 1x1 and 2x2 eigenvalues are the roots of the characteristic polynomial for every symmetric tensor in stress or strain Voigt form, each Jacobi rotation of a 3x3 tensor is a similarity that removes the selected off-diagonal entry, and the converged 3x3 values are the eigenvalues. '
     'The tensile energy counts exactly the positive principal strains and the positive trace.',
     'all symmetric tensors, all moduli, all cell counts, 1D to 3D',
     'Tests store the eigenvalues of one or two tensors with positive entries; sign branches and the choice of rotation plane are not sampled.',
     ['src/Eigenvalues.hpp', 'src/TensileEnergyDensity.hpp'], [('Jacobi rotations', 'src/Eigenvalues.hpp'), ('tensile split', 'src/TensileEnergyDensity.hpp')],
     'Convergence of the 3x3 iteration is only checked by running the compiled code on random tensors (labelled, not counted as proved); each single rotation is proved.')
prop('P17', 'Tensor norms equal the p-norm of each cell for any exponent',
     'The tensor, vector and weighted norms give at every cell the sum of the absolute terms to the stated exponent, scaled by volume (and by the weighting field), for any real exponent, and the Barlat norm of each cell is the stated function of its transformed deviators. '
     'The final criterion value is the matching root of the accumulated sum and its gradient scaling is the derivative of that root. A missing exponent raises an error.',
     'all tensors, all exponents at least one including fractional ones, all cell counts and tensor lengths',
     'Tests use integer exponents and one tensor; truncation of the exponent and wrong root scaling are not seen.',
     ['src/TensorPNorm.hpp', 'src/VectorPNorm.hpp'], [('norm kernels', 'src/TensorPNorm.hpp')], 'pow is an uninterpreted function with its usual algebraic facts.')
prop('P19', 'Newton-Raphson convergence measures and stopping names are exact',
     'The absolute measure is the change of the residual norm and the relative measure that change over the current norm, from the second iteration on, with the reference moved to the current norm after every iteration; non-finite norms raise an error, and so do diagnostics asked for on a closed file. '
     'The stopping criterion named in the input is recognised regardless of case, and any other name raises an error.',
     'all norm histories including non-finite norms, all iteration counts, a list of criterion names',
     'Tests run two iterations with finite norms; not-a-number norms, later iterations and unusual spellings are not reached.',
     ['src/NewtonRaphsonUtilities.hpp'], [('convergence measures', 'src/NewtonRaphsonUtilities.hpp')],
     'Criterion names are checked for a fixed list of spellings, not all strings.', over=('inputs', 'histories'))
prop('P14', 'Formulas in the input evaluate as ordinary mathematics',
     'A formula given as text evaluates, for every value of its variables, to what ordinary mathematics says: factorial over sign over right-associative power over product and quotient over sum and difference, left-associative within a level, with parentheses, absolute value bars, the named functions, pow of two full expressions, PI, scientific numbers and adjacent parentheses as products; a division by zero gives zero. '
     'A sign binds tighter than a power, so -x^2 is the square of -x. Unbalanced or incomplete formulas raise an error, and variables may have any identifier as name, including one that starts with a function name.',
     'all variable values for each of 270 sentences that cover every pair of adjacent constructs; random sentences by replay',
     'Tests evaluate a dozen formulas at one point; most pairs of operators, nested functions and unusual names are not among them.',
     ['src/ExpressionEvaluator.cpp', 'src/ExpressionEvaluator.hpp', 'src/CustomMaterial.cpp'], [('formula parser and evaluation', 'src/ExpressionEvaluator.cpp'), ('material formulas', 'src/CustomMaterial.cpp')],
     'Proved per sentence for all variable values; the text itself is not symbolic, so arbitrary sentences are only replayed (labelled).')
prop('P15', 'The rocket model burns its cylinder by the chamber pressure balance',
     'The cylinder reports its side area, gas mass rate and area derivatives for every radius and length, and burning moves its radius by rate times step and nothing else. '
     'At every recorded time the algebraic rocket model holds the chamber pressure at which gas production balances nozzle outflow (each Newton update, and the decision to stop when the pressure change falls below the tolerance, is proved for the first two updates), the matching thrust, and times one step apart from zero to the burn time. '
     'Solving again starts from the geometry the model was given.',
     'all dimensions, burn rates, densities, pressures and nozzle sizes; pressure exponents are a fixed list',
     'Tests run one rocket and compare stored numbers.',
     ['src/Plato_Cylinder.hpp', 'src/Plato_AlgebraicRocketModel.hpp', 'src/Plato_GeometryModel.hpp'], [('geometry', 'src/Plato_Cylinder.hpp'), ('rocket model', 'src/Plato_AlgebraicRocketModel.hpp')],
     'Convergence of the Newton iteration over many updates is only replayed (labelled); the first two updates and the stopping rule are proved.')
prop('P18', 'Every physics declares consistent unknown layouts and derivative widths',
     'For every physics and dimension, the numbers of nodes, unknowns per node and per cell, stress and strain terms, field offsets and local states agree with one another and with the dimension. '
     'In every evaluation type exactly the differentiated argument carries derivatives, with as many slots as that argument has unknowns per cell, and the result carries the same ones.',
     'all physics, all dimensions, all evaluation types', 'Tests instantiate one physics in one dimension; a wrong width or offset elsewhere compiles and truncates derivatives.',
     ['src/Simplex.hpp', 'src/SimplexMechanics.hpp', 'src/SimplexThermal.hpp', 'src/SimplexElectromechanics.hpp', 'src/SimplexThermomechanics.hpp', 'src/SimplexPlasticity.hpp', 'src/SimplexThermoPlasticity.hpp', 'src/SimplexStabilizedMechanics.hpp', 'src/SimplexStructuralDynamics.hpp', 'src/SimplexProjection.hpp', 'src/SimplexFadTypes.hpp'],
     [('unknown layouts', 'src/SimplexMechanics.hpp'), ('derivative types', 'src/SimplexFadTypes.hpp')], 'Compile-time constants read back from the compiled code.')
prop('P20', 'Derivative-carrying evaluation of penalties and laws is exact',
     'Evaluating a penalty, projection or material law with derivative-carrying numbers gives the same value as with plain numbers and, in every direction, the exact derivative of that law times the derivative of its argument, from results that do not refer to dead temporaries.',
     'all densities, penalty parameters, coefficients and derivative directions',
     'Tests evaluate these functions with plain numbers, or compare one assembled gradient.',
     ['src/Simp.hpp', 'src/Ramp.hpp', 'src/Heaviside.hpp', 'src/NoPenalty.hpp', 'src/HeavisideProjection.hpp', 'src/HyperbolicTangentProjection.hpp', 'src/MaterialModel.hpp'],
     [('penalty laws', 'src/Simp.hpp'), ('projections', 'src/HyperbolicTangentProjection.hpp'), ('material laws', 'src/MaterialModel.hpp')],
     'The derivative type of the external library is executed, not assumed; sin, exp, tanh and pow are uninterpreted with matching derivatives.')
prop('P21', 'Worksets gather exactly each cell\'s values and seed derivatives',
     'Gathering a control, state, nodal state, local state or coordinate field into a cell workset puts, for every cell (of the whole mesh or of one element block) and every local entry, exactly the value stored for that node or element in that direction. '
     'The derivative-carrying gather gives the same value and makes every local entry an independent variable of its own, with derivative one to itself and zero to all others. Nothing else is read or written.',
     'all meshes, element blocks, fields; mechanics 1D-3D, thermal, thermomechanics, electromechanics, stabilised mechanics, plasticity, thermoplasticity',
     'The tests gather one field of one box mesh with all its cells in order; element blocks in other orders, repeated cells and every derivative slot are not reached.',
     ['src/WorksetBase.hpp', 'src/Assembly.hpp', 'src/ImplicitFunctors.hpp', 'src/SpatialModel.hpp', 'src/SimplexFadTypes.hpp'], [('worksets', 'src/WorksetBase.hpp'), ('gathers', 'src/Assembly.hpp'), ('element blocks', 'src/SpatialModel.hpp')],
     'The mesh library is not installed: a stand-in hands out the connectivity and coordinate arrays the contract quantifies over.')
prop('P22', 'Assembly adds every cell contribution to its own global entry, once',
     'Assembling a residual, a state, shape or control gradient, or a Jacobian (also transposed, also from derivatives) adds to each global entry exactly the sum of the cell contributions that belong to it, over all cells or over one element block, whatever the connectivity. '
     'Matrix entry lookups return the entry of exactly that row and column, and the not-present mark only if it is absent; flattening and derivative extraction copy every entry to its place.',
     'all meshes, element blocks and workset values; any table of matrix entries; block shapes 1x1, 2x2, 3x3, 3x1, 4x3',
     'Tests assemble one box mesh with symmetric data; nodes shared in unusual ways, repeated entries, rectangular blocks and transposition errors are not reached.',
     ['src/Assembly.hpp', 'src/WorksetBase.hpp', 'src/ImplicitFunctors.hpp'], [('assembly kernels', 'src/Assembly.hpp'), ('entry lookups', 'src/ImplicitFunctors.hpp')],
     'The mesh library is a stand-in as in P21. Jacobian assembly is proved against any entry table, the lookups against any sparsity; cell blocks of two by three entries.')
prop('P23', 'Simplex geometry reproduces linear fields and true volumes',
     'For every non-degenerate simplex, the shape-function gradients sum to zero and differentiate every linear field exactly, the cell volume is the size of the Jacobian determinant (over the factorial of the dimension for the true volume), the strain matrix places them in Voigt order, and mapped points are the barycentric combinations of the nodes. '
     'The area of a face is half the length of the cross product of its edges.',
     'all node coordinates with non-zero determinant, all meshes, in one, two and three dimensions',
     'Tests evaluate the unit simplex or one box mesh, where most off-diagonal Jacobian entries vanish.',
     ['src/ImplicitFunctors.hpp', 'src/BodyLoads.hpp'], [('gradients and volumes', 'src/ImplicitFunctors.hpp'), ('point mapping', 'src/BodyLoads.hpp')],
     'The mesh library is a stand-in as in P21; its small-matrix determinant and inverse are their textbook formulas.')
prop('P24', 'Boundary conditions and body loads act on exactly their set, with their value',
     'Every essential condition constrains exactly the stated unknown at every node of its named node set to its stated value over the scale factor, conditions in input order, and nothing else; every natural load and pressure adds to exactly the nodes of the sides in its set the load (along the outward normal for a pressure) times the side measure over the number of its nodes, and every body load its nodal share of the density-weighted cell load. '
     'Absent sets, unknown condition kinds, missing, doubled or unsupported entries of a condition raise an error, and no access leaves the load or constraint arrays.',
     'all meshes with boundary sides, sets, values, scale factors and load layouts of mechanics, thermal and thermomechanics, in one to three dimensions',
     'Tests use box meshes with axis-aligned sides; oblique sides, other face orders, loads on part of the unknowns and rejected inputs are not reached.',
     ['src/EssentialBCs.hpp', 'src/NaturalBCs.hpp', 'src/NaturalBC.hpp', 'src/SurfaceLoadIntegral.hpp', 'src/SurfacePressureIntegral.hpp', 'src/NaturalBCUtilities.hpp', 'src/BodyLoads.hpp', 'src/ImplicitFunctors.hpp'],
     [('essential conditions', 'src/EssentialBCs.hpp'), ('natural conditions', 'src/NaturalBCs.hpp'), ('body loads', 'src/BodyLoads.hpp')],
     'The mesh library is a stand-in as in P21; a cell has at most one side in a set (the library accumulates without atomics). Most three-dimensional face orders are proved in the thorough tier only.')
prop('P25', 'Linear materials and element laws equal their textbook definitions',
     'Isotropic, cubic, orthotropic, custom, electroelastic and linear thermoelastic materials turn their input constants into exactly the stiffness, coupling, permittivity, expansion and conductivity matrices of the theory (the orthotropic stiffness is the inverse of the compliance), with the stated defaults, reference strain and damping entries. '
     'Orthotropic constants that no stable material has and missing required constants raise an error, and the factories build the named kind of material, give none when there is nothing to build and raise an error for an undefined name. '
     'At every cell the element laws (linear, damped, complex and homogenized stress, cell forcing, electro- and thermomechanical and stabilized kinetics, inertial content, scalar gradient and product) give exactly the stated combination of these matrices with the fields.',
     'all material constants, strains, gradients, temperatures and cell counts, 1D to 3D, every combination of given and absent optional entries',
     'Tests compare one or two materials and a handful of cells with stored numbers, and most need a mesh library that is not built here.',
     ['src/LinearElasticMaterial.cpp', 'src/IsotropicLinearElasticMaterial.cpp', 'src/CubicLinearElasticMaterial.cpp', 'src/OrthotropicLinearElasticMaterial.cpp', 'src/CustomLinearElasticMaterial.cpp', 'src/ElasticModelFactory.hpp', 'src/LinearElectroelasticMaterial.cpp', 'src/LinearElectroelasticMaterial.hpp',
      'src/LinearThermoelasticMaterial.cpp', 'src/LinearThermoelasticMaterial.hpp', 'src/LinearStress.hpp', 'src/CellForcing.hpp', 'src/HomogenizedStress.hpp', 'src/ComplexLinearStress.hpp', 'src/EMKinetics.hpp', 'src/TMKinetics.hpp', 'src/Kinetics.hpp', 'src/hyperbolic/InertialContent.hpp', 'src/ScalarGrad.hpp', 'src/ScalarProduct.hpp'],
     [('materials', 'src/OrthotropicLinearElasticMaterial.cpp'), ('coupled kinetics', 'src/TMKinetics.hpp'), ('stress', 'src/LinearStress.hpp')],
     'Omega_h small matrices come from a stand-in (assumed to be plain storage); a modulus of exactly zero is outside the precondition (the code divides by it).')
prop('P26', 'Cell residuals and criteria equal their weak forms, with exact derivatives',
     'For every cell of a domain, the static heat and elasticity residuals, the heat equation residual, the homogenisation residual and the body loads inside them equal the stated weak form of the penalised material: volume times flux or stress against the shape function gradients, plus the capacity terms. '
     'The internal elastic and thermal energies, flux and stress p-norms, effective energy, temperature average and volume equal their integrals over the cell, with material properties taken at the temperature of the cell where they depend on it. '
     'Evaluated with derivative-carrying numbers by state, rate, control or coordinates, each gives the same value and exactly the partial derivatives of that form, and no other cell is touched.',
     'all cells (in 3D and for control and coordinate derivatives: all cells up to a rigid motion), states, densities, material constants, penalty settings and domains, 1D to 3D',
     'Tests compare one mesh of a few cells with stored numbers and need a mesh library that is not built here; derivatives are compared with finite differences at single points.',
     ['src/elliptic/ThermostaticResidual.hpp', 'src/elliptic/ElastostaticResidual.hpp', 'src/elliptic/InternalElasticEnergy.hpp', 'src/elliptic/InternalThermalEnergy.hpp', 'src/elliptic/FluxPNorm.hpp', 'src/elliptic/StressPNorm.hpp', 'src/elliptic/EffectiveEnergy.hpp', 'src/elliptic/Volume.hpp',
      'src/parabolic/HeatEquationResidual.hpp', 'src/parabolic/InternalThermalEnergy.hpp', 'src/parabolic/TemperatureAverage.hpp', 'src/geometric/Volume.hpp', 'src/BodyLoads.hpp'],
     [('residuals', 'src/elliptic/ElastostaticResidual.hpp'), ('heat equation', 'src/parabolic/HeatEquationResidual.hpp'), ('criteria', 'src/elliptic/InternalThermalEnergy.hpp')],
     'The mesh library is a stand-in and the Sacado derivative type is replaced by its assumed contract (forward differentiation rules); plotting output is dropped. The slowest 3D derivative contracts are proved in the thorough tier and replayed on compiled code in the quick one.')
na('N01', 'Assembled gradients equal the derivative of the assembled criterion',
   'For every mesh, material and control field, the adjoint gradient returned for a criterion equals the derivative of the criterion value along every control and configuration direction.',
   'all meshes, controls, states, criteria', 'Tests compare finite differences at a few random points of one mesh.',
   ['src/EllipticVMSProblem.hpp', 'src/PlasticityProblem.hpp'], [('adjoint assembly', 'src/EllipticVMSProblem.hpp')],
   'The mesh library is not available here, so none of this code compiles; it also differentiates through an operator-overloading AD library and a linear solver, outside any contract the verifier can express.')
na('N03', 'Linear solves return the solution of the assembled system or an error',
   'Every linear solve either returns a vector whose residual meets the requested tolerance or reports failure.',
   'all matrices, right-hand sides and solver settings', 'Tests solve a handful of small systems.',
   ['src/alg/ParallelComm.hpp', 'src/alg/PlatoSolverFactory.hpp'], [('solver front ends', 'src/alg')],
   'The guarantee lives in external solver libraries (Epetra/AztecOO, AmgX, Tpetra) that are absent from the verified build; there is no repository code whose contract could decide it.')
na('N04', 'Automatic derivatives of element kernels equal their analytic partials',
   'Evaluating any element kernel with derivative-carrying numbers yields the same value as with plain numbers and the exact partial derivatives.',
   'all element states', 'Tests compare selected derivatives with stored numbers.',
   ['src/ScalarGrad.hpp', 'src/SimplexFadTypes.hpp'], [('derivative-carrying scalar types', 'src/SimplexFadTypes.hpp')],
   'Decided for the penalty functions, worksets, assembly and the static, heat and homogenisation kernels in P20, P21, P22 and P26. For the remaining kernels (plasticity, stabilized, dynamic) the derivative instantiations exceed what the verifier can execute in the time of a check; their plain-number instantiations are proved in P05 to P12 instead.')
na('N05', 'Distributed runs agree with serial runs',
   'Any decomposition over processes gives the same criterion values, states and gradients as a serial run.',
   'all decompositions and message schedules', 'Tests run on one process.',
   ['src/alg/ParallelComm.cpp', 'src/alg/Run.cpp'], [('communication objects', 'src/alg/ParallelComm.cpp')],
   'The exchange code is in the mesh and solver libraries that are not present here.', ('schedules', 'configurations'))
