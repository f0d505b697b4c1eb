function C40_pr ()
  [labels, scores, tied] = vt_ranking() ;
  n = numel(labels) ;
  args = {} ; incl = false ; interp = false ; prior = [] ;
  if rand < .3, incl = true ; args = [args {vt_pick('IncludeInf','includeInf'), true}] ; end
  if rand < .3, interp = true ; args = [args {'Interpolate', true}] ; end
  P = sum(labels(:) > 0) ; N = sum(labels(:) < 0) ;
  if rand < .25, P = P + vt_int(0,5) ; args = [args {'NumPositives', P}] ; end
  if rand < .25, N = N + vt_int(0,5) ; args = [args {'NumNegatives', N}] ; end
  if rand < .25, prior = vt_pick(.1, .5, .9, .05 + .9*rand) ; args = [args {'NormalizePrior', prior}] ; end
  vt_desc('vl_pr labels=%s scores=%s options=%s', mat2str(double(labels(:))'), mat2str(scores(:)',4), disp(args)) ;
  [recall, precision, info] = vl_pr(labels, scores, args{:}) ;

  % by definition: visit the retrieved samples by decreasing score
  l = double(labels(:)') ; s = scores(:)' ;
  idx = 1:n ;
  if ~incl, idx = idx(s > -inf) ; end
  [~, o] = sort(-s(idx)) ;   % stable, as the order of ties is only judged at their ends
  idx = idx(o) ;
  m = numel(idx) ;
  ends = true(1, m+1) ;                     % where the ranking is determined
  for k = 1:m-1, ends(k+1) = s(idx(k)) ~= s(idx(k+1)) ; end
  if incl && m > 0, [~, b] = unique(s(idx)) ; ends(:) = false ; ends(1) = true ; ends(m+1) = true ;
    for k = 1:m-1, ends(k+1) = s(idx(k)) > s(idx(k+1)) ; end
  end
  R = zeros(1, m+1) ; Q = ones(1, m+1) ; tp = 0 ; fp = 0 ; TP = zeros(1,m+1) ; FP = TP ;
  for k = 1:m
    tp = tp + (l(idx(k)) > 0) ; fp = fp + (l(idx(k)) < 0) ;
    TP(k+1) = tp ; FP(k+1) = fp ;
  end
  for k = 0:m
    tp = TP(k+1) ; fp = FP(k+1) ;
    if P > 0, R(k+1) = tp / P ; end
    if isempty(prior)
      if tp + fp > 0, Q(k+1) = tp / (tp + fp) ; end
    else
      a = 0 ; b = 0 ;
      if P > 0, a = tp * prior / P ; end
      if N > 0, b = fp * (1 - prior) / N ; end
      if a + b > 0, Q(k+1) = a / (a + b) ; end
    end
  end
  if interp
    for k = m:-1:1, Q(k) = max(Q(k), Q(k+1)) ; end
  end
  if numel(recall) ~= m + 1 || numel(precision) ~= m + 1
    vt_fail('pr.length', '%d and %d points for %d retrieved samples', numel(recall), numel(precision), m) ; return ;
  end
  if recall(1) ~= 0, vt_fail('pr.first', 'recall starts at %g', recall(1)) ; end
  if any(diff(recall) < 0), vt_fail('pr.monotone', 'recall decreases') ; end
  hasTies = ~all(ends) ;
  tolQ = 1e-6 ;                            % precisions are floored at 1e-10
  if ~isempty(prior), tolQ = tolQ + 2e-10 * max(N, P) / min(prior, 1 - prior) ; end
  if ~hasTies
    vt_near('pr.recall', recall, R, 1e-9) ;
    vt_near('pr.precision', precision, Q, tolQ) ;
  else
    vt_near('pr.recall', recall(ends), R(ends), 1e-9) ;
    if ~interp, vt_near('pr.precision', precision(ends), Q(ends), tolQ) ; end
  end
  if any(precision < -1e-12 | precision > 1 + 1e-9), vt_fail('pr.range', 'precision outside [0,1]') ; end
  if ~hasTies
    % average of the precision at each recalled positive
    ap = 0 ;
    for k = 1:m
      if TP(k+1) > TP(k), ap = ap + Q(k+1) ; end
    end
    if P > 0
      vt_near('pr.ap', info.ap, ap / P, tolQ) ;
      auc = 0 ;
      if interp
        auc = ap / P ;
      else
        for k = 1:m, auc = auc + (R(k+1) - R(k)) * (Q(k) + Q(k+1)) / 2 ; end
      end
      vt_near('pr.auc', info.auc, auc, tolQ) ;
    end
    lo = 0 ; hi = 0 ;                        % recalls equal to a level up to rounding may go either way
    for t = 0:10
      x = [0 Q(R >= t/10 + 1e-9)] ; y = [0 Q(R >= t/10 - 1e-9)] ;
      lo = lo + max(x) / 11 ; hi = hi + max(y) / 11 ;
    end
    if ~(info.ap_interp_11 >= lo - tolQ && info.ap_interp_11 <= hi + tolQ)
      vt_fail('pr.ap11', 'ap_interp_11 is %.9g, not within [%.9g, %.9g]', info.ap_interp_11, lo, hi) ;
    end
    if info.auc_pa08 ~= info.ap_interp_11, vt_fail('pr.pa08', 'auc_pa08 differs from ap_interp_11') ; end
  end

  % the same points, in the order of the samples
  [rs, ps, infos] = vl_pr(labels, scores, args{:}, 'Stable', true) ;
  wr = nan(1, n) ; wp = wr ; wr(idx) = recall(2:end) ; wp(idx) = precision(2:end) ;
  if ~hasTies
    vt_near('pr.stable', rs(:)', wr, 1e-12) ; vt_near('pr.stable', ps(:)', wp, 1e-12) ;
  elseif numel(rs) ~= n
    vt_fail('pr.stable.size', '%d values for %d samples', numel(rs), n) ;
  end
  if P > 0 && ~isequaln_(info, infos), vt_fail('pr.stable.info', 'the metrics depend on the order of the output') ; end

  % samples with label 0 count for nothing
  if any(l == 0) && any(l ~= 0)
    [~, ~, i2] = vl_pr(l(l ~= 0), s(l ~= 0), args{:}) ;
    if P > 0, vt_near('pr.zero', [i2.ap i2.auc i2.ap_interp_11], [info.ap info.auc info.ap_interp_11], 1e-9) ; end
    vt_count('ignored_samples') ;
  end
  % only the ranking matters
  if ~hasTies && ~any(isinf(s))
    [r3, p3, i3] = vl_pr(labels, exp(scores / 50), args{:}) ;
    vt_near('pr.ranking', [r3 p3], [recall precision], 1e-12) ;
  end
  vt_count('curve_points', m + 1) ;
  if hasTies, vt_count('with_ties') ; end
  if ~incl && m < n, vt_count('with_unretrieved') ; end
  if m >= 2 && P > 0, vt_seen(l, s, disp(args)) ; end
end

function t = isequaln_ (a, b)
  t = true ; f = fieldnames(a) ;
  for i = 1:numel(f)
    x = a.(f{i}) ; y = b.(f{i}) ;
    t = t && (isequal(x, y) || (any(isnan(x)) && any(isnan(y)))) ;
  end
end
