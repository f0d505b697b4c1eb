function C40_roc ()
  [labels, scores, tied] = vt_ranking() ;
  n = numel(labels) ;
  args = {} ; incl = false ;
  if rand < .2, incl = true ; args = [args {'IncludeInf', true}] ; end
  P = sum(labels(:) > 0) ; N = sum(labels(:) < 0) ;
  if rand < .25, P = P + vt_int(0,5) ; args = [args {'NumPositives', P}] ; end
  if rand < .25, N = N + vt_int(0,5) ; args = [args {'NumNegatives', N}] ; end
  vt_desc('vl_roc labels=%s scores=%s options=%s', mat2str(double(labels(:))'), mat2str(scores(:)',4), disp(args)) ;
  l = double(labels(:)') ; s = scores(:)' ;
  [tpr, tnr, info] = vl_roc(labels, scores, args{:}) ;
  idx = 1:n ;
  if ~incl, idx = idx(s > -inf) ; end
  [~, o] = sort(-s(idx)) ; idx = idx(o) ;
  m = numel(idx) ;
  if numel(tpr) ~= m + 1 || numel(tnr) ~= m + 1
    vt_fail('roc.length', '%d points for %d retrieved samples', numel(tpr), m) ; return ;
  end
  ends = true(1, m+1) ;
  for k = 1:m-1, ends(k+1) = s(idx(k)) ~= s(idx(k+1)) ; end
  A = zeros(1, m+1) ; B = ones(1, m+1) ; tp = 0 ; fp = 0 ;
  for k = 1:m
    tp = tp + (l(idx(k)) > 0) ; fp = fp + (l(idx(k)) < 0) ;
    if P > 0, A(k+1) = tp / P ; end
    if N > 0, B(k+1) = 1 - fp / N ; end
  end
  vt_near('roc.tpr', tpr(ends), A(ends), 1e-9) ;
  vt_near('roc.tnr', tnr(ends), B(ends), 1e-9) ;
  if any(diff(tpr) < 0) || any(diff(tnr) > 0), vt_fail('roc.monotone', 'a rate moves the wrong way') ; end

  if P > 0 && N > 0
    % the area is the probability of a pair of samples being ranked right,
    % which ties leave open; what is not retrieved has no pairs
    lo = 0 ; hi = 0 ;
    for i = idx(l(idx) < 0)
      above = sum(s(idx) > s(i) & l(idx) > 0) ; same = sum(s(idx) == s(i) & l(idx) > 0) ;
      lo = lo + above ; hi = hi + above + same ;
    end
    if ~(info.auc >= lo / (P*N) - 1e-9 && info.auc <= hi / (P*N) + 1e-9)
      vt_fail('roc.auc', 'area %.9g, pairs give [%.9g, %.9g]', info.auc, lo/(P*N), hi/(P*N)) ;
    end
    if all(ends)
      % the rate of errors where the curve meets TNR = TPR
      k = find(B > A, 1, 'last') ;
      if k == m + 1
        if ~isnan(info.eer), vt_fail('roc.eer', 'equal error rate %g of a curve that does not cross', info.eer) ; end
        vt_count('no_crossing') ;
      else
        if A(k) == A(k+1), e = 1 - A(k) ; else e = 1 - B(k) ; end
        near = min(abs(B - A)) < 1e-9 & min(abs(B - A)) > 0 ;
        if ~near
          vt_near('roc.eer', info.eer, e, 1e-9) ;
          if info.eerThreshold ~= s(idx(k)), vt_fail('roc.threshold', 'threshold %g instead of the score %g', info.eerThreshold, s(idx(k))) ; end
          % at that threshold the two error rates are on either side of it
          fpr = sum(l(idx) < 0 & s(idx) >= info.eerThreshold) / N ;
          fnr = 1 - sum(l(idx) > 0 & s(idx) >= info.eerThreshold) / P ;
          if info.eer > max(fpr, fnr) + 1e-9 || info.eer < min(fpr, fnr) - 1e-9
            vt_fail('roc.crossing', 'EER %g is not between the error rates %g and %g at its threshold', info.eer, fpr, fnr) ;
          end
          vt_count('equal_error_rates') ;
        end
      end
    end
  end
  [ts, ns] = vl_roc(labels, scores, args{:}, 'stable', true) ;
  wt = nan(1,n) ; wn = wt ; wt(idx) = tpr(2:end) ; wn(idx) = tnr(2:end) ;
  if all(ends)
    vt_near('roc.stable', ts(:)', wt, 1e-12) ; vt_near('roc.stable', ns(:)', wn, 1e-12) ;
  end
  [miss, fa] = vl_det(labels, scores, args{:}) ;
  vt_near('det', [miss fa], [1-tpr 1-tnr], 1e-12) ;
  if any(l == 0) && P > 0 && N > 0
    [~, ~, i2] = vl_roc(l(l ~= 0), s(l ~= 0), args{:}) ;
    vt_near('roc.zero', [i2.auc i2.eer], [info.auc info.eer], 1e-9) ;
  end
  vt_count('curve_points', m + 1) ;
  if m >= 2 && P > 0 && N > 0, vt_seen(l, s, disp(args)) ; end
end
