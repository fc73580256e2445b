"""Writes /verif/known_findings.json (kept as code so that it stays well
formed). `fixed` entries suppress nothing."""
import json
import os

FINDINGS = [
    dict(property='C01', mechanism='normal:large-offset',
         what='Normal keeps raw sums of x and x**2, so data near 1e9 with '
              'spread ~10 lose all precision: logpdf_score of [1e9-7, 1e9-2, '
              '1e9, 1e9+1, 1e9+3, 1e9+8] under m=1e9, r=s=nu=1 is wrong by '
              'tens of nats (or raises a math domain error)'),
    dict(property='C23', mechanism='ols:noise-disabled',
         what='OrdinaryLeastSquares.simulate returns the fitted mean every '
              'time (the source says "Temporarily disable noise"), while '
              'logpdf is Gaussian with the noise of the fit: 200 samples of '
              'one model with noise 1.06 have no spread at all'),
    dict(property='C24', mechanism='kde:unobserved-category',
         what='MultivariateKde.logpdf spreads the Aitchison-Aitken kernel '
              'over the categories seen in the data (as statsmodels does), '
              'not the k declared, and simulate over all k: for data '
              '0,0,1,1,0,1 with k=3, bw=.3 the probabilities sum to 1.3'),
    dict(property='C13', mechanism='state:uncollapsed-parameters',
         what='the current parameters of uncollapsed columns (beta, '
              'normal_trunc) are not part of the metadata of a State or '
              'View: a state with one beta column, 8 rows in two clusters '
              'scores -10.24, its copy -14.05'),
    dict(property='C26', mechanism='state:empty-column',
         what='a column without a single observed cell is refused: '
              'construct_hyper_grids takes the minimum of no values, and '
              'State fails with ValueError'),
    dict(property='C20', mechanism='engine:serial-half-done',
         what='an engine update with multiprocess=0 is applied state by state '
              'in place, so that update_cctype(1, linear_regression), granted '
              'by state 0 (all columns in one view) and refused by state 1 '
              '(column 1 alone in its view), raises but leaves state 0 '
              'changed (in worker processes no state changes)'),
]

FIXED = [
    ('C01', 'ae740ec', 'NormalTrunc.logpdf_score used uniform(0, h) rather than the '
     'uniform prior of mu on [l, h]'),
    ('C04', '82023d4', 'Geometric.incorporate raised TypeError, not ValueError, for '
     'an invalid value'),
    ('C04', '3c9dfc1', 'Crp.incorporate truncated 1.5 to table 1'),
    ('C09', '6ac914c', 'State._gibbs_transition_dim zipped CRP weights in sorted '
     'table order with views in dictionary order'),
    ('C10', '60227c6', 'a column that took hyperparameters from its grids left its '
     'clusters with the defaults'),
    ('C10', 'fecfd94', 'Dim.set_hypers did not reach the fresh cluster and aliased '
     'the caller\'s dict'),
    ('C08', '94f196a', 'State.simulate grouped samples by cluster in each view, so '
     'columns of different views were dependent across samples'),
    ('C08', '2bdc690', 'View.simulate returned samples sorted by cluster'),
    ('C28', '6c55968', 'mh_sample reflected its proposal at the ends of the support only once, so proposals fell outside'),
    ('C28', '4e59858', 'slice_sample discarded burn-1 samples'),
    ('C10', 'db3d25b', 'NormalTrunc.transition_params did not target the posterior of mu and sigma'),
    ('C01', '89a3609', 'NormalTrunc replaced a given mean of 0 by a prior draw'),
    ('C02', '56bdc82', 'NormalTrunc.simulate failed on an interval narrow against sigma'),
    ('C21', 'b8d9648', 'parse_schema looked for k= in the column name rather than the type'),
    ('C21', '2cec1b0', "parse_schema mutated the caller's dataframe"),
    ('C21', '6ee2149', 'logp_crp_fresh truncated an integer alpha divided by m'),
    ('C26', '48199ed', 'State._populate_constraints dropped the first column of a recorded row'),
    ('C18', 'e595de9', 'marginalised conditions of mutual information were not paired with the fixed ones'),
    ('C13', 'ed4f61b', 'a state reconstructed with conditional columns was not treated as composite'),
    ('C20', '38bf477', 'Dim.incorporate left an empty cluster behind a refused observation'),
    ('C20', 'ad76573', 'View.incorporate left a half-incorporated row behind a refused observation'),
    ('C20', '856bc5d', 'State.incorporate left a half-incorporated row behind a refused observation'),
    ('C20', 'cfff654', 'force_cell left the cell set behind a refused observation'),
    ('C20', '7647000', 'a refused update_cctype lost the old column'),
    ('C11', 'e44f343', "incorporate_dim aliased the caller's data"),
    ('C20', 'dce364d', 'a refused incorporate_dim left the column behind'),
    ('C12', '2f75c40', 'unincorporate_dim kept dependence constraints on the removed column'),
    ('C12', '720611e', 'State accepted a column partition violating its own constraints'),
    ('C13', '24d5e59', 'metadata aliased live hypers, data and diagnostics'),
    ('C13', 'a65bc84', 'State.from_metadata dropped the tokens of composed cgpms'),
    ('C12', '90af151', 'an independence of other than two customers was not refused'),
    ('C12', 'cc85778', 'constraints on negative customers were accepted'),
    ('C12', '92af915', 'row independences of a column without row dependences were not validated'),
    ('C12', '6907a9f', '_check_partitions indexed columns by position'),
    ('C17', '34d977f', 'State.logpdf of a composed variable for a recorded row raised KeyError'),
    ('C15', '4df7012', 'parallel_map hung on a result that cannot be pickled'),
    ('C15', '8bdd0ba', 'parallel_map left terminated workers unreaped'),
    ('C15', '693ddb2', 'parallel_map hung when a worker died'),
    ('C15', 'a53e6b5', 'parallel_map left its workers behind when interrupted'),
    ('C10', 'bd22114', 'the column concentration move ignored that dependent columns count as one customer'),
    ('C03', 'd48542b', 'RandomForest.unincorporate did not restore the category counts'),
    ('C13', '8a93f11', 'LinearRegression metadata dropped the prior mean and covariance'),
    ('C13', 'ecdcff8', 'linreg metadata aliased live data; loading modified the metadata'),
    ('C13', 'acd5894', 'ols metadata aliased live data; loading modified the metadata'),
    ('C13', '7107e99', 'forest metadata aliased live data; loading modified the metadata'),
    ('C24', '623b3a8', 'FactorAnalysis.logpdf_score scored row ids, or crashed'),
    ('C24', '9106b48', 'MultivariateKnn.logpdf failed on float or unknown categories'),
    ('C24', 'b7a2cdf', 'nearest neighbors dropped rows closer than a tie'),
    ('C24', '4dad6af', 'PieceWise joint density scored z twice and x never'),
    ('C24', 'af31384', 'FourWay probabilities did not sum to one'),
    ('C24', 'f05480f', 'FourWay.logpdf failed on float categories'),
    ('C24', 'edf9e81', 'TwoWay failed on float values'),
    ('C24', 'ea49bdd', 'UnDirectedXyGpm.logpdf of one variable, or of two in another order'),
    ('C24', '7651534', 'Dots.logpdf_conditional was not a conditional density'),
    ('C24', '97e0dcd', 'DirectedXyGpm passed inputs as constraints and N as inputs'),
    ('C14', '2decdb7', 'Sin ignored the generator it was given'),
    ('C14', '529985f', 'Parabola ignored the generator it was given'),
    ('C11', '3edd261', 'a refused State.relevance_probability left hypothetical rows behind'),
    ('C13', '579f69d', 'metadata of states and views shared live lists and dicts with the model'),
    ('C19', 'c4b5fac', 'View.relevance_probability failed, leaving rows removed, when target and query rows are all rows'),
    ('C19', 'a846822', 'View.relevance_probability removed a query row once per mention, and then failed'),
    ('C13', 'c776e80', 'Engine.from_metadata wrote into the metadata it was given'),
    ('C18', 'f066f69', 'kldiv failed with k=1'),
    ('C19', '18e9e07', 'dependence_probability missed a composed column that is an ancestor of the other'),
    ('C16', 'cd230da', 'likelihood weights of an engine took the inputs as constraints'),
    ('C16', '575cbfd', 'an empty selection of states selected all the states of an engine'),
    ('C12', 'd0cbdbf', 'states added to an engine lost its column dependence constraints'),
    ('C14', 'cef3f20', 'results of an engine depended on multiprocess after a query'),
    ('C25', '5d2fa7d', 'a transition of zero sweeps failed with a division by zero'),
    ('C26', '8164b84', 'a cell filled in by force_cell did not reach the regression columns given it'),
    ('C20', '3f7b33b', 'a refused incorporate_dim left the column behind in states with regression columns'),
    ('C27', '812d47a', 'lovecat received row partitions in the order rows last moved, not by row'),
    ('C27', '00c7b35', 'transition_lovecat failed without N and S'),
    ('C27', 'bdbe838', 'lovecat received column constraints by id rather than by index'),
    ('C27', '2e7bb1d', 'Engine.transition_loom asked for None passes without N'),
    ('C27', '538b7b7', 'loom projects created within one second shared a directory'),
    ('C29', 'f4d6652', 'VsCGpm.simulate ignored N'),
    ('C29', 'c508bed', 'restoring a VsCGpm changed the metadata it was given'),
    ('C29', 'fc2b531', 'a refused VsCGpm.incorporate left cells observed'),
    ('C29', '940d271', 'VsCGpm.simulate left constraints observed after a failure, and hypothetical rows recorded'),
    ('C29', '5412447', 'a failed query of an inline venturescript left its expression assumed'),
    ('C29', 'b68576a', 'InlineVsCGpm.simulate required constraints'),
    ('C07', '34d2ded', 'a view took recorded rows for hypothetical ones (and the reverse) once a row before them was removed'),
    ('C13', '45b9579', 'metadata of a view with a row removed from the middle moved the rows after it up'),
    ('C31', '99b6b15', 'VonMises.set_hypers refused b=0, which is valid, and accepted k<=0'),
    ('C14', 'fd9e921', 'Diamond ignored the generator it was given'),
]

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..',
                       'known_findings.json'), 'w') as f:
    json.dump(dict(findings=FINDINGS, fixed=[
        'fixed: property=%s %s %s' % t for t in FIXED]), f, indent=1)
    f.write('\n')
