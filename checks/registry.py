CHECKS = {}
def check(id, **k): CHECKS[id] = k
check('C01', harness=['C01.cpp'])
check('C02', harness=['C02.cpp'])
COMMON_SRC = ['Substance.cpp', 'GlobalFunctions.cpp', 'Common/Exception.cpp']
check('C04', harness=['C04.cpp'], sources=['Substances/EmpiricalCpIntegration.cpp', 'Substances/StandardEntropyCpIntegration.cpp'] + COMMON_SRC)
SUBST = ['ThermoModelsSubstance.cpp', 'Substance.cpp', 'GlobalFunctions.cpp', 'Common/Exception.cpp']
check('C05', harness=['C05.cpp', 'C05_bm.cpp'], sources=SUBST + ['Substances/Solids/SolidBMGottschalk.cpp'], weaken={'Substances/Solids/SolidBMGottschalk.cpp': r'ThermoFun::BM_Volume\('})
HKF = ['Substances/Solute/SoluteHKFgems.cpp', 'Substances/Solute/SoluteHKFreaktoro.cpp']
check('C06', harness=['C06.cpp'], sources=SUBST + HKF)
check('C07', harness=['C07.cpp'], sources=HKF + COMMON_SRC)
ENGINE = ['ThermoEngine.cpp', 'Database.cpp', 'Element.cpp', 'Substance.cpp', 'Reaction.cpp', 'GlobalFunctions.cpp', 'Common/Exception.cpp', 'Common/ParseJsonToData.cpp', 'Common/Units.cpp']
for x in ('C13', 'C14', 'C15', 'C16'): check(x, harness=[x + '.cpp'], sources=ENGINE)
RMOD = ['ThermoModelsReaction.cpp', 'Reaction.cpp', 'GlobalFunctions.cpp', 'Common/Exception.cpp'] + ['Reactions/' + x + '.cpp' for x in ('LogK_function_of_T', 'DolejsManning2010', 'FrantzMarshall', 'RyzhenkoBryzgalyn')]
check('C11', harness=['C11.cpp'], sources=RMOD)
check('C12', harness=['C12.cpp'], sources=RMOD)
RK = 'Substances/Solvent/Reaktoro/'
check('C08', harness=['C08.cpp'], sources=[RK + 'WaterHelmholtzStateHGK.cpp', RK + 'WaterHelmholtzStateWagnerPruss.cpp'])
check('C09', harness=['C09.cpp', 'C09_zd.cpp', 'C09_hgk.cpp'], weaken={'Substances/Solvent/WaterZhangDuan2005.cpp': r'ThermoFun::waterMolarVolume\(', 'Substances/Solvent/WaterHGK-JNgems.cpp': r'WaterHGKgems::(resid|base|thmHGK|denHGK|pcorr|dimHGK|HGKsat|LVSeqn|HGKeqn|Pfind|conver|crtreg|valid|dalHGK|dalLVS|Born92|viscos|thcond|surten|PsHGK|valid|LVSsat|denLVS|thmLVS|ideal|bb)\('}, sources=['Substances/Solvent/WaterIdealGasWolley.cpp', 'Substances/Solvent/WaterZhangDuan2005.cpp', 'Substances/Solvent/WaterHGK-JNgems.cpp', 'ThermoModelsSolvent.cpp', 'Substance.cpp', 'GlobalFunctions.cpp', 'Common/Exception.cpp', 'Substances/Solvent/WaterHGKreaktoro.cpp', 'Substances/Solvent/WaterWP95reaktoro.cpp', RK + 'WaterUtils.cpp', RK + 'WaterThermoStateUtils.cpp'])
ES = 'Substances/Solvent/'
check('C10', harness=['C10.cpp'], sources=ENGINE + ['ElectroModelsSolvent.cpp', ES + 'WaterJN91reaktoro.cpp', ES + 'WaterElectroSverjensky2014.cpp', ES + 'WaterElectroFernandez1997.cpp', ES + 'WaterHGK-JNgems.cpp', RK + 'WaterElectroStateJohnsonNorton.cpp', RK + 'WaterUtils.cpp'],
      weaken={'ThermoEngine.cpp': r'ThermoFun::ThermoEngine::propertiesSolvent\([^,]*, [^,]*, std', ES + 'WaterElectroSverjensky2014.cpp': r'ThermoFun::epsilonS\(', ES + 'WaterElectroFernandez1997.cpp': r'ThermoFun::epsilonF\('})
check('C22', harness=['C22.cpp'], sources=SUBST + ['Substances/Solute/' + x + '.cpp' for x in ('SoluteADgems', 'SoluteHollandPowell98', 'SoluteAnderson91')])
SOLMOD = 'Substances/Gases/s_solmod2_.cpp'
check('C23', harness=['C23.cpp'], sources=SUBST + ['Substances/Gases/s_solmod_.cpp', SOLMOD] + ['Substances/Gases/Gas%s.cpp' % x for x in ('CORK', 'PRSV', 'CGF', 'SRK', 'PR78', 'STP')],
      weaken={SOLMOD: r'calc::Cardano\(|solmod::TCORKcalc::VolumeFugacity\(|solmod::TSTPcalc::(DensityGuess|Pressure|Helmholtz|PsatH2O|PsatCO2)\(|solmod::TCGFcalc::(FTOTALMIX|ROTOTALMIX|ZTOTALMIX|dHS|RPA|FWCA|J6LJ|K23_13)\(|calc::\w*(CalcFugPure|CGcalcFugPure)\('})
check('C17', harness=['C17.cpp'], sources=sorted(set(ENGINE + SUBST + RMOD + HKF)) + ['ThermoModelsSolvent.cpp', 'ElectroModelsSolvent.cpp'] + ['Substances/Solids/' + x + '.cpp' for x in ('SolidBMGottschalk', 'SolidBerman88', 'SolidHPLandau', 'SolidMurnaghanHP98')] + ['Substances/Solute/' + x + '.cpp' for x in ('SoluteADgems', 'SoluteHollandPowell98', 'SoluteAnderson91')] + ['Substances/EmpiricalCpIntegration.cpp', 'Substances/StandardEntropyCpIntegration.cpp', ES + 'WaterIdealGasWolley.cpp', ES + 'WaterHGKreaktoro.cpp', ES + 'WaterWP95reaktoro.cpp', RK + 'WaterThermoStateUtils.cpp'] + ['Substances/Gases/Gas%s.cpp' % x for x in ('CORK', 'PRSV', 'CGF', 'SRK', 'PR78', 'STP')],
      weaken={'Substances/Solids/SolidBMGottschalk.cpp': r'ThermoFun::BM_Volume\(', RK + 'WaterThermoStateUtils.cpp': r'ThermoFun::waterThermoState(HGK|WagnerPruss)\(', **{'Substances/Gases/Gas%s.cpp' % x: r'ThermoFun::thermoPropertiesGas' for x in ('CORK', 'PRSV', 'CGF', 'SRK', 'PR78', 'STP')}})
check('C03', harness=['C03.cpp'], sources=['Common/Units.cpp'],
      note='Proved for every unit and every pair and triple of units in the table (239 units and 8 temperature units, each an independent definition), for every value. Products, quotients and powers of units are bounded: 13 shapes over three sets of four atoms, 4 families of equivalent expressions, 24 malformed strings; labelled bounded_* and not counted as proved. Sizes of units that rest on a measured or rounded constant are compared to 4e-6.')
check('C20', harness=['C20.cpp'], sources=ENGINE, level='other', technique='bounded contract checking of the real record reader: the numbers in a record are arbitrary reals, the shapes of records are enumerated',
      note='Bounded, not proved: every field of a substance, reaction or element record in every form (unit given in each of several units, no unit, null, empty, absent), alone or among all others, every documented method alone and in combination, every parameter field with each count and unit list; the numbers are arbitrary. nlohmann::json is trusted; the key of a method is taken to agree with its name.',
      static={'explanation': 'Each contract enumerates record shapes within the stated bound and, for each shape, checks that the quantities the real parser stores equal the (symbolic, arbitrary) numbers of the record converted with an independent table of unit factors. Counts are in bounded_stand_ins.'})
check('C24', harness=['C24.cpp'], sources=ENGINE, level='other', technique='bounded contract checking of the real parser: the coefficients are arbitrary reals, the shapes of the equations are enumerated',
      note='Bounded, not proved: every equation with up to 3 terms on each side (12 substance names, 7 ways to write a coefficient, 4 spacings) and every list of up to 3 reactants, each for all values of its coefficients. Numbers are written as decimal text and read back by the real parser; the text of a number is taken to read back as that number. An equation without = and a number directly followed by a name that continues it as an exponent (2E1) are outside the precondition.',
      static={'explanation': 'Each contract enumerates the shapes of reaction equations and reactant records within the stated bound and, for each shape, checks that the coefficients read by the real code equal the (symbolic, arbitrary) coefficients written. Counts are in bounded_stand_ins.'})
check('C21', harness=['C21.cpp'], sources=ENGINE, level='other', technique='bounded contract checking of the real database code against a map of symbols to records; the records\' setters, getters and copies proved',
      note='Proved: every field of a substance, reaction and element record holds what was last stored in it, for every value, and copies and assignments are values of their own. Bounded: every sequence of two operations (of ten kinds, on two symbols) from an empty database, then a copy and one more operation on either; every way to construct a database; three operations over the three kinds of records. The numbers are arbitrary. nlohmann::json and the stand-in for ChemicalFun are trusted. Additions keep an existing record, as Database.h states.',
      static={'explanation': 'The record contracts are proved for every value. Each bounded contract enumerates the operations on the real database and compares it with a map from symbols to records after each. Counts are in bounded_stand_ins.'})
BATCH = ENGINE + ['Batch/ThermoBatch.cpp', 'Batch/OutputBatch.cpp']
check('C18', harness=['C18.cpp'], sources=BATCH, level='other', technique='bounded contract checking of the real batch code over the real engine with opaque models',
      note='Bounded, not proved: up to three records of a kind, up to two properties, up to nine pairs of temperature and pressure (one pair, lists of pairs, ranges of up to two steps, saturation pressure), all loop orders and unit choices; the results of the engine\'s models are arbitrary functions of their arguments and the temperatures, pressures and steps arbitrary numbers. The unit converter is the real one (C03). The models of the engine are opaque (C16).',
      static={'explanation': 'Each contract enumerates the shapes of a batch query (records, properties, layout of temperatures and pressures, loop order, units) within the stated bound and, for each, checks that the real batch code stores and lists exactly what the real engine, with models that are arbitrary functions, returns for the single query. Counts are in bounded_stand_ins.'})
check('C19', harness=['C19.cpp'], sources=BATCH + ['Common/OutputToCSV.cpp'], level='other', technique='bounded contract checking of the real writers: the results are arbitrary quantities, the layouts are enumerated',
      note='Bounded, not proved: up to three records, four properties and four pairs, every layout of file (rows, transposed, one grid per property, the fixed layout writer), loop order, notation and undefined-value option, and twelve mixes of separator, units, digits and names; the numbers written are arbitrary: a number printed by the real code is a token standing for the value, the digits and the notation it was printed with. Files are written in a scratch directory that the check removes. A separator occurring in a number, and a directory in the name of a property grid file, are outside the precondition.',
      static={'explanation': 'Each contract enumerates layouts within the stated bound, runs the real writers on arbitrary results, reads the file back and checks each cell for the value, digits and notation its header, symbol, temperature and pressure call for. Counts are in bounded_stand_ins.'})
NOT_APPLICABLE = {
 'C25': 'Termination of a Newton or secant iteration over the equation of state, in floating point, everywhere in its range of validity: there is no ranking function to write as a loop variant (the iterations are not monotone), and contracts over real arithmetic say nothing about rounding. What holds when a search ends is part of C09 and C23.',
 'C26': 'A property of interleavings. The contracts here are sequential: a function is verified from one state to the next, with no ownership or locks in the code to state as permissions (the engine\'s caches and the file-scope structures of the HGK code are written without any synchronisation), and C++ threads are outside the verifier.'}
# what a contract named bounded_* is bounded by
BOUNDS = {'C03': 'unit expressions of 13 shapes over three sets of four units; 4 families of 6 equivalent expressions; 24 malformed strings; all values',
          'C20': 'one field in every form with the others present or absent, one or three methods, up to three temperature intervals; all numbers',
          'C21': 'sequences of two or three operations and a copy, two symbols; all numbers',
          'C18': 'up to three records, two properties and nine temperature-pressure pairs; all loop orders and units of a table; all numbers',
          'C19': 'up to three records, four properties, four temperature-pressure pairs, twelve mixes of separator, units and digits, three notations; all numbers',
          'C24': 'up to 3 terms on each side of an equation or in a list of reactants, 12 substance names, 7 ways to write a coefficient, 4 spacings; all values of the coefficients',
          'C15': 'the memoising wrappers themselves: every cache of up to 3 results (limits 0 to 3 and none), 4 different keys differing in each kind of argument, one more query, then all again'}
